-- Creates compilers from changed descriptions and records what they are refused with, or what they compile.
-- arguments: <case file> <result file>
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
local names, log = {}, {}
local function show( x)
  if type(x) ~= "table" then return tostring( x) end
  local keys, res = {}, {}
  for k in pairs( x) do keys[ #keys+1] = k end
  table.sort( keys, function( a, b) return tostring(a) < tostring(b) end)
  for _,k in ipairs( keys) do res[ #res+1] = tostring(k) .. "=" .. (names[ x[k]] or show( x[k])) end
  return "{" .. table.concat( res, ",") .. "}"
end
package.preload["verifts"] = function()
  return setmetatable( {}, {__index = function( t, k)
    local f
    if k == "obj" then
      f = "the object"
    else
      f = function( node, ...) log[ #log+1] = k .. show( node) .. show( {...}) end
      names[ f] = "function " .. k
    end
    rawset( t, k, f)
    return f
  end})
end
names[ print] = "function print"
local mewa = require( "mewa")
local spec = dofile( arg[1])

local function quote( s)
  return '"' .. s:gsub( '[%c"\\]', function( c) return string.format( "\\u%04x", c:byte()) end) .. '"'
end
local function dump( x, bytes)
  local t = type( x)
  local num = tonumber( x)
  local fine = num and num == num and math.abs( num) < 2147483647
  local s = t == "function" and (names[ x] or "function") or t == "table" and "" or tostring( x)
  local c, e = {}, {}
  if bytes and t == "string" then c = {x:byte( 1, -1)} end
  if t == "table" then
    for k,v in pairs( x) do e[ #e+1] = '{"k":' .. dump( k) .. ',"v":' .. dump( v, k == "mewa") .. '}' end
  end
  return string.format( '{"t":"%s","s":%s,"c":[%s],"int":%s,"num":%s,"v":%d,"pre":%s,"post":%s,"e":[%s]}', t, quote( s), table.concat( c, ","),
    tostring( t == "number" and fine and num % 1 == 0 or t == "string" and s:match( "^%d+$") ~= nil), tostring( fine ~= nil and fine ~= false), fine and math.floor( num) or 0,
    quote( s:match( "^[^ ]*")), quote( s:match( "^[^ ]* (.*)$") or ""), table.concat( e, ","))
end
local function changed( base, edits)
  local t = dofile( base)
  for _,ed in ipairs( edits) do
    local x = t
    for i = 1, #ed.path-1 do x = type( x) == "table" and x[ ed.path[ i]] end
    if type( x) == "table" then x[ ed.path[ #ed.path]] = ed.value end
  end
  return t
end
local function write( name, text)
  local f = assert( io.open( name, "w"))
  f:write( text)
  f:close()
end
local function runs( compiler, sources)
  local res = {}
  for _,src in ipairs( sources) do
    write( "load.src", src)
    log = {}
    local ok, err = pcall( compiler.run, compiler, "load.tpl", nil, "load.src", "load.out")
    res[ #res+1] = table.concat( log, ";") .. (ok and " ok" or " " .. tostring( err))
  end
  return "[" .. table.concat( (function() local q = {} for i,r in ipairs( res) do q[ i] = quote( r) end return q end)(), ",") .. "]"
end

write( "load.tpl", "{Code}")
local out = assert( io.open( arg[2], "w"))
for _,b in ipairs( spec.bases) do
  local t = dofile( b.file)
  out:write( string.format( '{"table":%s,"runs":%s}\n', dump( t), runs( mewa.compiler( t), b.sources)))
end
for _,case in ipairs( spec.cases) do
  local base = spec.bases[ case.base]
  local t = changed( base.file, case.edits)
  local touched, e = {}, {}
  for _,ed in ipairs( case.edits) do touched[ ed.path[1]] = true end
  for k,v in pairs( t) do
    e[ #e+1] = '{"k":' .. dump( k) .. ',"v":' .. (touched[ k] and dump( v, k == "mewa") or '{"t":"same"}') .. '}'
  end
  local ok, res = pcall( function() local c = mewa.compiler( t) return c end)
  local text, r = "", "[]"
  if not ok then
    text = tostring( res)
  elseif case.run then
    r = runs( res, base.sources)
  end
  out:write( string.format( '{"table":{"e":[%s]},"err":%s,"runs":%s}\n', table.concat( e, ","), quote( text), r))
  out:flush()
end
out:close()
