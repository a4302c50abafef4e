-- Shows values with mewa.tostring and reads the texts back.
-- arguments: <file with cases> <result file>
-- The file with cases returns {{make1, make2, {{depth, indent}...}}...}: both functions build the same value.
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
package.path = arg[0]:gsub( "[^/]*$", "") .. "?.lua"
local json = require( "json")
local mewa = require( "mewa")
local CUT = setmetatable( {}, {})
local bytes = function( s)
  local r = setmetatable( {}, json.array)
  for i=1,#s do r[i] = s:byte(i) end
  return r
end
local function num( x)
  return x ~= x and "nan" or x == 0 and "0" or string.format( "%.17g", x)
end
local function enc( v)
  local t = type(v)
  if v == CUT then return {t="cut"}
  elseif t == "nil" then return {t="nil"}
  elseif t == "boolean" then return {t="bool", b=v}
  elseif t == "number" then return {t="num", n=num(v)}
  elseif t == "string" then return {t="str", c=bytes(v)}
  elseif t == "table" then
    local e = setmetatable( {}, json.array)
    for k,x in pairs(v) do e[#e+1] = {k=enc(k), v=enc(x)} end
    return {t="tab", e=e}
  end
  return {t=t}
end
local res = assert( io.open( arg[2], "w"))
for _,case in ipairs( dofile( arg[1])) do
  local out = {}
  for i,run in ipairs( case[3]) do
    local text = mewa.tostring( case[1](), run[1], run[2])
    local other = mewa.tostring( case[2](), run[1], run[2])
    local f, err = load( "return " .. text)
    local ok, back
    if f then
      ok, back = pcall( f, CUT)
    end
    local _,lines = text:gsub( "\n", "")
    out[i] = {d=run[1], indent=run[2], back=ok and enc(back) or {t="error"}, same=text == other, lines=lines, text=bytes(text)}
  end
  res:write( json.encode( out), "\n")
end
res:close()
