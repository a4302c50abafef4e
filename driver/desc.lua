-- Reads generated Lua files: descriptions of a language (mode l) or tables of a compiler (mode g).
-- arguments: <list of lines: mode file> <result file>
package.path = arg[0]:gsub( "[^/]*$", "") .. "?.lua"
local json = require( "json")
local A = function(t) return setmetatable( t, json.array) end

-- stands for everything a table may reference in the typesystem
local any = setmetatable( {}, {__index = function(t) return t end})
local known = {op=1, name=1, pattern=1, select=1, open=1, close=1, nl=1, tabsize=1, left=1, right=1, priority=1, scope=1, call=1, line=1}

local function text( v) return v == nil and "" or type(v) == "string" and v or error( "string expected, got " .. type(v)) end
local function num( v) return v == nil and 0 or type(v) == "number" and v or error( "number expected, got " .. type(v)) end

local function rule( r)
  local at, right, names = A{}, A{}, {}
  for k in pairs(r) do if not known[k] then names[#names+1] = k end end
  table.sort( names)
  for i,k in ipairs(names) do
    local c = A{}
    for j,x in ipairs( r[k]) do c[j] = text(x) end
    at[i] = {n=k, c=c}
  end
  for i,x in ipairs( r.right or {}) do right[i] = {k=text(x.type), v=text(x.value)} end
  if (r.op == "PROD") ~= (r.right ~= nil) then error( "right side") end
  return {op=text(r.op), name=text(r.name), pattern=text(r.pattern), select=num(r.select), open=text(r.open), close=text(r.close), nl=text(r.nl),
          tabsize=num(r.tabsize), left=text(r.left), right=right, priority=text(r.priority), scope=text(r.scope), call=text(r.call), line=num(r.line), at=at}
end

local function read( mode, file)
  local f = assert( loadfile( file, "t", {typesystem=any, require=function() return any end}))
  local t = f()
  if mode == "g" then
    if type(t.action) ~= "table" or type(t.lexer) ~= "table" or type(t.nonterminal) ~= "table" then error( "no table") end
    return {set={LANGUAGE=text(t.language), TYPESYSTEM=text(t.typesystem), CMDLINE=text(t.cmdline)}}
  end
  local rules = A{}
  for i,r in ipairs( t.RULES) do rules[i] = rule(r) end
  return {set={LANGUAGE=text(t.LANGUAGE), TYPESYSTEM=text(t.TYPESYSTEM), CMDLINE=text(t.CMDLINE)}, rules=rules}
end

local out = assert( io.open( arg[2], "w"))
for line in io.lines( arg[1]) do
  local mode, file = line:match( "^(%S+) (%S+)$")
  local ok, r = pcall( read, mode, file)
  out:write( json.encode( ok and {ok=true, desc=r} or {ok=false, err=tostring(r)}), "\n")
end
out:close()
