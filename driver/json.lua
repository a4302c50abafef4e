-- Minimal JSON encoder: tables with json array mark or integer keys are arrays, others objects.
local J = {}
local esc = {['"']='\\"', ['\\']='\\\\', ['\n']='\\n', ['\r']='\\r', ['\t']='\\t'}
local function str( s)
  return '"' .. s:gsub( '[%c"\\]', function(c) return esc[c] or string.format( "\\u%04x", c:byte()) end) .. '"'
end
local function enc( v)
  local t = type(v)
  if t == "string" then return str(v)
  elseif t == "number" then
    if v ~= math.floor(v) then error( "non integer number in event: " .. v) end
    return string.format( "%d", v)
  elseif t == "boolean" then return tostring(v)
  elseif t == "table" then
    if v[1] ~= nil or next(v) == nil or getmetatable(v) == J.array then
      local r = {}
      for i=1,#v do r[i] = enc(v[i]) end
      return "[" .. table.concat( r, ",") .. "]"
    end
    local keys, r = {}, {}
    for k in pairs(v) do keys[#keys+1] = k end
    table.sort( keys)
    for i,k in ipairs(keys) do r[i] = str(k) .. ":" .. enc(v[k]) end
    return "{" .. table.concat( r, ",") .. "}"
  end
  error( "cannot encode a " .. t)
end
J.array = {}
J.encode = enc
return J
