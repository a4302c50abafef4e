-- Runs a history of nested compiler runs and records what is seen after every step.
-- arguments: <table file> <case file> <result file>
-- The case file returns {ops={op...}, files={name...}}; an operation that starts a run has the numbers of the operations
-- made in it in the source file, "body" says that there are some (or none, but a proper end).
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
package.path = arg[0]:gsub( "[^/]*$", "") .. "?.lua"
local json = require( "json")
local stdprint, stdsection, stddebug = print, print_section, debug
local case = dofile( arg[2])
local obs, runs, open = setmetatable( {}, json.array), setmetatable( {}, json.array), {}
local restored = true

local function bytes( s)
  local r = setmetatable( {}, json.array)
  for i=1,#s do r[i] = s:byte(i) end
  return r
end
local function observe()
  local files = setmetatable( {}, json.array)
  for _,n in ipairs( case.files) do
    local f = io.open( n, "rb")
    if f then
      files[#files+1] = {n=n, t=bytes( f:read( "*a"))}
      f:close()
    end
  end
  obs[#obs+1] = {depth=#open, files=files}
end
local function args( op, ...)
  local a = {...}
  local n = select( '#', ...)
  for i=1,op.n do a[n+i] = op.args[i] end
  return table.unpack( a, 1, n + op.n)
end
local compilers = {}
local step

local function start( op)
  local comp = compilers[op.comp]
  local depth = #open
  open[depth+1] = op
  if op.body then observe() end
  if op.prot then
    local ok, err = pcall( comp.run, comp, table.unpack( op.run, 1, op.nrun))
    if not ok then
      while #open > depth do
        runs[#runs+1] = type( err) == "string" and tonumber( err:match( "^#(%d+)")) or -1
        open[#open] = nil
      end
      observe()
      return
    end
  else
    comp:run( table.unpack( op.run, 1, op.nrun))
  end
  runs[#runs+1] = 0
  open[#open] = nil
  observe()
end

function step( k)
  local op = case.ops[k]
  if not op then obs[#obs+1] = {depth=-1, files=setmetatable( {}, json.array)}
  elseif op.op == "start" then start( op)
  elseif op.op == "print" then print( args( op)) observe()
  elseif op.op == "section" then print_section( args( op)) observe()
  elseif op.op == "debug" then debug( args( op, "@@")) observe()
  elseif op.op == "fail" then error( op.err, op.level) end
end

package.preload["verifts"] = function() return {op = function( node) step( tonumber( node.arg[1].value)) end} end
local mewa = require( "mewa")
for i=1,case.comps do compilers[i] = mewa.compiler( dofile( arg[1])) end
for _,k in ipairs( case.top) do
  step( k)
  restored = restored and print == stdprint and print_section == stdsection and debug == stddebug
end
io.stdout:flush()
local res = assert( io.open( arg[3], "w"))
res:write( json.encode( {obs=obs, runs=runs, restored=restored}), "\n")
res:close()
