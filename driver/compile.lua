-- Runs the compiler of a generated table on inputs and records what it calls.
-- arguments: <table file> <job file> <result file>
-- Lines of the job file: <input file> <options: - | Lua expression> <target file> <output file> [<debug output file>]
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
package.path = arg[0]:gsub( "[^/]*$", "") .. "?.lua"
local json = require( "json")
local names = {}	-- function or reference object -> name
local calls = {}
local traced	-- run with debug output
local dump

-- JSON of an argument: references into the typesystem are shown by name
local function value( v)
  if names[v] then return '@' .. names[v] end
  if type(v) == "table" then
    local keys, r = {}, {}
    for k in pairs(v) do keys[#keys+1] = k end
    table.sort( keys, function(a,b) return tostring(a) < tostring(b) end)
    for i,k in ipairs(keys) do r[i] = tostring(k) .. "=" .. value(v[k]) end
    return "{" .. table.concat( r, ",") .. "}"
  end
  if type(v) == "string" then return '"' .. v .. '"' end
  return tostring(v)
end

function dump( n)
  if n.call then
    local ch = setmetatable( {}, json.array)
    for i,c in ipairs( n.arg or {}) do ch[i] = dump(c) end
    if n.scope then
      return {k=1, n=names[n.call.proc] or "?", v=value(n.call.obj), line=n.line or -1, sk="scope", s1=n.scope[1], s2=n.scope[2], ch=ch}
    end
    return {k=1, n=names[n.call.proc] or "?", v=value(n.call.obj), line=n.line or -1, sk=n.step and "step" or "", s1=n.step or 0, s2=0, ch=ch}
  end
  return {k=0, n=tostring(n.name), v=tostring(n.value), line=n.line or -1, sk="", s1=0, s2=0, ch=setmetatable({}, json.array)}
end

local typesystem = setmetatable( {}, {__index = function( t, name)
  local v
  if name == "refFalse" or name == "refNum" then
    v = name == "refNum" and 7
    rawset( t, name, v)
    return v
  end
  if name:sub(1,3) == "ref" then
    v = {}
  else
    v = function( node, ...)
      local args = setmetatable( {}, json.array)
      for i=1,select( '#', ...) do args[i] = value( (select( i, ...))) end
      calls[#calls+1] = {fn=name, node=dump(node), args=args}
      if name:sub(1,4) == "fail" then error( "failed on purpose " .. name, 0) end
      if name:sub(1,5) == "print" then print( node.call.obj or "") end
      if traced and node.call.obj ~= nil then return #calls end
    end
  end
  names[v] = name
  rawset( t, name, v)
  return v
end})
package.preload["verifts"] = function() return typesystem end
local mewa = require( "mewa")
local compilers = {}
if arg[1] ~= "-" then compilers["1"] = mewa.compiler( dofile( arg[1])) end
local res = assert( io.open( arg[3], "w"))

local function run( compiler, line)
  local input, options, target, output, dbg = line:match( "^(%S+) (%S+) (%S+) (%S+) ?(%S*)$")
  traced = dbg ~= ""
  calls = setmetatable( {}, json.array)
  if options == "-" then options = nil else options = assert( load( "return " .. options:gsub( "([{,])(%d)=", "%1[%2]=")))() end
  local ok, err = pcall( compiler.run, compiler, target, options, input, output, traced and dbg or nil)
  res:write( json.encode( {ok=ok, err=ok and "" or tostring(err), calls=calls}), "\n")
  res:flush()
end

-- several compilers: "new <slot> <table file>", "drop <slot>", "gc", "run <slot> <as above>"
for line in io.lines( arg[2]) do
  local cmd, slot, rest = line:match( "^(%l+) ?(%S*) ?(.*)$")
  if cmd == "new" then compilers[slot] = mewa.compiler( dofile( rest))
  elseif cmd == "drop" then compilers[slot] = nil
  elseif cmd == "gc" then collectgarbage()
  elseif cmd == "run" then run( assert( compilers[slot]), rest)
  else run( compilers["1"], line) end
end
res:close()
