-- Runs a compiler whose functions fail, and records the error of the function and the error of the run.
-- arguments: <table file> <case file> <result file>
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
local current, calls
package.preload["verifts"] = function()
  return { op = function( node)
    calls = calls + 1
    if calls == current.fails then current.g() end
  end}
end
local mewa = require( "mewa")
local db = mewa.typedb()
local compilers = {mewa.compiler( dofile( arg[1])), mewa.compiler( dofile( arg[1]))}

local function write( name, text)
  local f = assert( io.open( name, "w"))
  f:write( text)
  f:close()
end

local make = {
  error = function( c) return function() error( c.value, c.level) end end,
  runtime = function( c) return assert( load( c.value, c.chunk))() end,
  nested = function( c)
    write( "nested.src", c.value)
    return function() compilers[ c.comp]:run( nil, nil, "nested.src", "nested.out") end
  end,
  missing = function( c) return function() compilers[ c.comp]:run( nil, nil, c.value, "nested.out") end end,
  typedb = function( c)
    local calls = {
      function() db:scope( {"x"}) end,
      function() db:scope( c.value) end,
      function() db:derive_type( 0, 0, c.value) end,
      function() db:def_type( 0) end,
      function() db:get_instance() end,
      function() db:type_name( c.value) end,
      function() db:set_instance( c.value) end,
      function() mewa.compiler( {}) end,
    }
    return calls[ c.call]
  end
}
local function hex( s) return "x" .. s:gsub( ".", function(x) return string.format( "%02x", x:byte()) end) end

local function run()
  compilers[1]:run( nil, nil, "src", "out")
end

local res = assert( io.open( arg[3], "w"))
for i,c in ipairs( dofile( arg[2])) do
  c.g = make[ c.kind]( c)
  calls = -1
  current = {g=function() end}
  local ok, m = pcall( c.g)
  assert( not ok)
  local kind = (type(m) == "string" or type(m) == "number") and "text" or "none"
  write( "src", ("1 "):rep( c.words))
  calls, current = 0, c
  local okrun, t = pcall( run)
  res:write( string.format( "case %d %s %d %s %s %s\n", i, tostring( okrun), calls, kind, hex( tostring( m)), hex( okrun and "" or tostring( t))))
  res:flush()
end
res:write( "end\n")
res:close()
