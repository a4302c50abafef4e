-- Runs the compiler of a table on one source and writes what it calls as rows in pre-order.
-- arguments: <table file> <source> <result file>
-- A row is [depth, name, value, line, kind, step or scope start, scope end].
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
package.path = arg[0]:gsub( "[^/]*$", "") .. "?.lua"
local json = require( "json")
local names = {}
local rows = setmetatable( {}, json.array)

local function value( v)
  if type(v) == "string" then return '"' .. v .. '"' end
  return tostring(v)
end

local function walk( root)
  local st = {{root, 1}}
  while #st > 0 do
    local top = table.remove( st)
    local n, d = top[1], top[2]
    local row
    if n.call then
      row = {d, names[n.call.proc] or "?", value(n.call.obj), n.line or -1, n.scope and "scope" or n.step and "step" or "",
             n.scope and n.scope[1] or n.step or 0, n.scope and n.scope[2] or 0}
    else
      row = {d, tostring(n.name), tostring(n.value), n.line or -1, "", 0, 0}
    end
    rows[#rows+1] = setmetatable( row, json.array)
    local a = n.arg or {}
    for i=#a,1,-1 do st[#st+1] = {a[i], d+1} end
  end
end

local typesystem = setmetatable( {}, {__index = function( t, name)
  local v = function( node) return walk( node), name end  -- uses name: closures of the same values would be one function
  names[v] = name
  rawset( t, name, v)
  return v
end})
package.preload["verifts"] = function() return typesystem end
local mewa = require( "mewa")
local compiler = mewa.compiler( dofile( arg[1]))
local ok, err = pcall( compiler.run, compiler, nil, nil, arg[2], "output")
local res = assert( io.open( arg[3], "w"))
res:write( json.encode( {ok=ok, err=ok and "" or tostring(err), rows=rows}))
res:close()
