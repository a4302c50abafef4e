-- Hexadecimal constants of numbers. arguments: <file with numbers as hexadecimal floats> <result file>
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
local mewa = require( "mewa")
local function show( f, x)
  local ok, r = pcall( f, x)
  return ok and type(r) == "string" and #r < 100 and not r:find( "[^%w]") and r ~= "" and r or "-"
end
local res = assert( io.open( arg[2], "w"))
for line in io.lines( arg[1]) do
  local x = line == "inf" and 1/0 or line == "-inf" and -1/0 or line == "nan" and 0/0 or tonumber( line)
  res:write( string.format( "%a %s %s\n", x, show( mewa.llvm_float_tohex, x), show( mewa.llvm_double_tohex, x)))
end
res:close()
