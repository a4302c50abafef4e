-- Shows the tokens a compiler of a universal grammar sees (every token has a production with a call of its own).
-- arguments: <table file> <result file> <input file>...
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
package.path = arg[0]:gsub( "[^/]*$", "") .. "?.lua"
local json = require( "json")
local toks
local names = {}
local function bytes( s)
  local r = setmetatable( {}, json.array)
  for i=1,#s do r[i] = s:byte(i) end
  return r
end
local typesystem = setmetatable( {}, {__index = function( t, name)
  local v = function( node, ...)
    toks = setmetatable( {}, json.array)
    for i,n in ipairs( node.arg) do
      local x = n.arg[1]
      if x then
        toks[i] = {n=x.name, v=bytes( x.value), line=x.line}
      else
        toks[i] = {n="'" .. tostring( n.call.obj), v=bytes(""), line=0}
      end
    end
  end
  rawset( t, name, v)
  return v
end})
package.preload["verifts"] = function() return typesystem end
local mewa = require( "mewa")
local compiler = mewa.compiler( dofile( arg[1]))
local res = assert( io.open( arg[2], "w"))
for k=3,#arg do
  toks = nil
  local ok, err = pcall( compiler.run, compiler, "target", nil, arg[k], "out")
  if ok then
    res:write( json.encode( {st="ok", toks=toks or setmetatable( {}, json.array), line=0, err=""}), "\n")
  else
    err = tostring( err)
    res:write( json.encode( {st=err:find( "#501") and "bad" or "other", toks=setmetatable( {}, json.array),
                             line=tonumber( err:match( "at line (%d+)") or -1), err=bytes( err)}), "\n")
  end
  res:flush()
end
res:close()
