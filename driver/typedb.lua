-- Executes type database operations (one Lua table per line of the file arg[1]) on the real mewa module
-- and records every call with its result as one JSON object per line in arg[2].
local here = arg[0]:match("^(.*)/[^/]*$")
package.path = here .. "/?.lua;" .. package.path
package.cpath = os.getenv("MEWA_SO_DIR") .. "/?.so"
local J = require "json"
local mewa = require "mewa"
local out = assert( io.open( arg[2], "w"))

local typedb, handles
-- Lua objects standing for the opaque values of the specification:
local objid, idobj = {}, {}
local function obj( id)
  if id == "" then return nil end
  if idobj[id] ~= nil then return idobj[id] end
  local k, rest = id:match( "^(%a):(.*)$")
  local v
  if k == "s" then v = rest elseif k == "n" then v = tonumber(rest) elseif k == "b" then v = (rest == "true")
  elseif k == "f" then v = function() return id end
  else v = {rest} end
  idobj[id] = v
  if k == "f" or k == "t" then objid[v] = id end
  return v
end
local function name( v)
  local t = type(v)
  if v == nil then return "" elseif t == "string" then return "s:" .. v elseif t == "number" then return "n:" .. v
  elseif t == "boolean" then return "b:" .. tostring(v) else return objid[v] or ("?:" .. tostring(v)) end
end
local function h( x)
  if type(x) == "table" then
    if #handles == 0 then return 0 end
    return handles[ (x.ref - 1) % #handles + 1]
  end
  return x
end
local function w64( w)
  local x = w * 64
  if x ~= math.floor(x) then return -1 end
  return x
end
local function mask( o)
  if o.all then return nil end
  local m = 0
  if #o.tags > 0 then m = typedb:reduction_tagmask( (table.unpack or unpack)( o.tags)) end
  return m
end
local function cmask( o)
  if #o.ctags == 0 then return nil end
  return typedb:reduction_tagmask( (table.unpack or unpack)( o.ctags))
end
local function tclist( l)
  local r = {}
  for i,e in ipairs( l or {}) do r[i] = {t=e.type, c=name( e.constructor)} end
  return r
end
local function pars( o, ev)
  local r, evp = {}, {}
  for i,p in ipairs( o.pars) do
    local t = h( p.t)
    evp[i] = {t=t, c=p.c}
    if p.c == "" and (p.form or 0) == 0 then r[i] = t
    elseif (p.form or 0) <= 1 then r[i] = {type=t, constructor=obj(p.c)}
    else r[i] = {t, obj(p.c)} end
  end
  ev.pars = evp
  if #r == 0 and o.nopars then return nil end
  return r
end
local function tree( t, val)
  local nodes = {}
  local function walk( n, ps, pe)
    local s = n:scope()
    nodes[#nodes+1] = {s=s[1], e=s[2], ps=ps, pe=pe, val=val(n)}
    for c in n:chld() do walk( c, s[1], s[2]) end
  end
  walk( t, -1, -1)
  return nodes
end

local ops = {}
function ops.scope_get( o, ev) local s, st = typedb:scope(); ev.rs, ev.re, ev.rstep = s[1], s[2], st end
function ops.scope( o, ev)
  ev.s, ev.e, ev.step = o.s, o.e, o.step
  local s, st
  if o.step == -1 then s, st = typedb:scope( {o.s,o.e}) else s, st = typedb:scope( {o.s,o.e}, o.step) end
  ev.rs, ev.re, ev.rstep = s[1], s[2], st
end
function ops.step_get( o, ev) ev.r = typedb:step() end
function ops.step( o, ev) ev.step = o.step; ev.r = typedb:step( o.step) end
function ops.set_instance( o, ev) ev.name, ev.v = o.name, o.v; typedb:set_instance( o.name, obj(o.v)) end
function ops.get_instance( o, ev) ev.name = o.name; ev.r = name( typedb:get_instance( o.name)) end
function ops.this_instance( o, ev) ev.name = o.name; ev.r = name( typedb:this_instance( o.name)) end
function ops.def_type( o, ev)
  ev.ctx, ev.name, ev.ctor = h(o.ctx), o.name, o.ctor
  local p = pars( o, ev)
  ev.r = typedb:def_type( ev.ctx, o.name, obj(o.ctor), p)
  if ev.r > 0 then handles[#handles+1] = ev.r end
end
function ops.def_type_as( o, ev)
  ev.ctx, ev.name, ev.t = h(o.ctx), o.name, h(o.t)
  ev.r = typedb:def_type_as( ev.ctx, o.name, ev.t)
end
function ops.this_type( o, ev)
  ev.ctx, ev.name, ev.pars = h(o.ctx), o.name, {}
  for i,p in ipairs(o.pars) do ev.pars[i] = h(p) end
  local r
  if #ev.pars == 0 and o.nopars then r = typedb:this_type( ev.ctx, o.name) else r = typedb:this_type( ev.ctx, o.name, ev.pars) end
  ev.r = r or -2
end
function ops.this_types( o, ev)
  ev.ctx, ev.name = h(o.ctx), o.name
  ev.r = typedb:this_types( ev.ctx, o.name)
end
function ops.def_reduction( o, ev)
  ev.to, ev.from, ev.ctor, ev.tag, ev.w = h(o.to), h(o.from), o.ctor, o.tag, o.w
  if o.w == 0 and o.now then typedb:def_reduction( ev.to, ev.from, obj(o.ctor), o.tag)
  else typedb:def_reduction( ev.to, ev.from, obj(o.ctor), o.tag, o.w/64) end
end
function ops.get_reduction( o, ev)
  ev.to, ev.from, ev.all, ev.tags = h(o.to), h(o.from), o.all, o.tags
  local w, c = typedb:get_reduction( ev.to, ev.from, mask(o))
  ev.found = (w ~= nil)
  ev.w, ev.c = w and w64(w) or 0, name(c)
end
function ops.get_reductions( o, ev)
  ev.from, ev.all, ev.tags, ev.ctags = h(o.from), o.all, o.tags, o.ctags
  ev.r = {}
  for i,e in ipairs( typedb:get_reductions( ev.from, mask(o), cmask(o))) do
    ev.r[i] = {t=e.type, c=name(e.constructor), w=w64(e.weight), n=e.count and true or false}
  end
end
function ops.derive_type( o, ev)
  ev.to, ev.from, ev.all, ev.tags, ev.ctags, ev.max = h(o.to), h(o.from), o.all, o.tags, o.ctags, o.max
  local r, w, alt
  if o.max == 1 and o.nomax then r, w, alt = typedb:derive_type( ev.to, ev.from, mask(o), cmask(o))
  else r, w, alt = typedb:derive_type( ev.to, ev.from, mask(o), cmask(o), o.max) end
  ev.found = (r ~= nil)
  ev.r, ev.w, ev.alt = tclist(r), w and w64(w) or 0, alt or {}
end
function ops.resolve_type( o, ev)
  ev.name, ev.all, ev.tags, ev.ctxs = o.name, o.all, o.tags, {}
  local a = {}
  for i,c in ipairs( o.ctxs) do
    local t = h(c.t)
    local pair = c.pair and o.list
    ev.ctxs[i] = {t=t, c=pair and c.c or "", pair=pair and true or false}
    a[i] = c.pair and {type=t, constructor=obj(c.c)} or t
  end
  local t, r, items = typedb:resolve_type( o.list and a or a[1], o.name, mask(o))
  ev.t, ev.r, ev.items, ev.alt = 0, {}, {}, {}
  if t == nil then ev.rt = "none"
  elseif type(t) == "table" then ev.rt = "ambiguous"; ev.alt = t
  else ev.rt = "type"; ev.t = t; ev.r = tclist(r); ev.items = items end
end
function ops.type_name( o, ev) ev.t = h(o.t); ev.r = typedb:type_name( ev.t) end
function ops.type_context( o, ev) ev.t = h(o.t); ev.r = typedb:type_context( ev.t) end
function ops.type_string( o, ev)
  ev.t, ev.sep = h(o.t), o.sep
  if o.sep == " " then ev.r = typedb:type_string( ev.t) else ev.r = typedb:type_string( ev.t, o.sep) end
end
function ops.type_parameters( o, ev)
  ev.t = h(o.t)
  ev.r = tclist( typedb:type_parameters( ev.t))
  ev.n = typedb:type_nof_parameters( ev.t)
end
function ops.type_constructor( o, ev) ev.t = h(o.t); ev.r = name( typedb:type_constructor( ev.t)) end
function ops.type_scope( o, ev) ev.t = h(o.t); local s = typedb:type_scope( ev.t); ev.rs, ev.re = s[1], s[2] end
local treeval = {
  inst = function( n) return name( n:instance()) end,
  type = function( n) local r = {}; for t in n:list() do r[#r+1] = t end; return r end,
  redu = function( n)
    local r = {}
    for e in n:list() do
      r[#r+1] = {to=e.to, from=e.from, ctor=name(e.constructor), tag=e.tag, w=w64(e.weight)}
    end
    return r
  end}
function ops.instance_tree( o, ev) ev.name = o.name; ev.nodes = tree( typedb:instance_tree( o.name), treeval.inst) end
function ops.type_tree( o, ev) ev.nodes = tree( typedb:type_tree(), treeval.type) end
function ops.reduction_tree( o, ev) ev.nodes = tree( typedb:reduction_tree(), treeval.redu) end

-- Trees kept to be shown later, when the database has other definitions or does not exist anymore
local kept
function ops.keep( o, ev)
  ev.kind, ev.name = o.kind, o.name
  if o.kind == "inst" then kept.inst = typedb:instance_tree( o.name)
  elseif o.kind == "type" then kept.type = typedb:type_tree()
  else kept.redu = typedb:reduction_tree() end
end
function ops.show( o, ev)
  ev.kind, ev.nodes = o.kind, {}
  local t = kept[o.kind]
  if not t then return end
  ev.nodes = tree( t, treeval[o.kind])
end

-- Calls that do not fit the declaration of the method: op.args are the kinds of the arguments
local kinds = {
  ["nil"] = function() return nil end, bool = function() return true end, num = function() return handles[1] or 1 end, zero = function() return 0 end,
  neg = function() return -3 end, frac = function() return 1.5 end, big = function() return 2^40 end, negbig = function() return -2^40 end, nan = function() return 0/0 end,
  inf = function() return math.huge end, str = function() return "zz" end, numstr = function() return "1" end, tab = function() return {} end,
  func = function() return print end, file = function() return io.stdout end, db = function() return typedb end, tree = function() return typedb:type_tree() end,
  scope = function() return {0,10} end, list = function() return {handles[1]} end,
  list_str = function() return {"x"} end, list_numstr = function() return {"1"} end, list_bool = function() return {true} end, list_func = function() return {handles[1], print} end,
  list_file = function() return {io.stdout} end, list_neg = function() return {-1} end, list_frac = function() return {0.5} end, list_big = function() return {2^40} end,
  list_nan = function() return {0/0} end, list_key = function() return {x=1} end, list_key0 = function() return {[0]=1} end, list_keyfrac = function() return {[1.5]=1} end,
  list_keybool = function() return {[true]=1} end, list_tab = function() return {{}} end, list_typestr = function() return {{type="x"}} end,
  list_typefrac = function() return {{type=0.5}} end, list_typebig = function() return {{type=2^40}} end, list_typeneg = function() return {{type=-1}} end,
  list_typetab = function() return {{type={}}} end, list_ctor = function() return {{constructor="c"}} end, list_3 = function() return {{1,"c",3}} end,
  list_pairstr = function() return {{"x","c"}} end, list_pairfrac = function() return {{0.5,"c"}} end,
  range_rev = function() return {9,5} end, range_3 = function() return {1,2,3} end, range_str = function() return {0,"5"} end, range_frac = function() return {0.5,3} end,
  range_frac2 = function() return {0,3.5} end, range_big = function() return {0,2^40} end, range_big2 = function() return {2^40,2^41} end, range_key = function() return {0,5,x=1} end,
  range_neg = function() return {-5,3} end, range_nan = function() return {0,0/0} end, range_tab = function() return {{},3} end,
}
function ops.bad( o, ev)
  ev.m, ev.obj, ev.args = o.m, o.obj, o.args
  local a = {}
  for i,k in ipairs( o.args) do a[i] = kinds[k]() end
  local ok, err
  if o.obj == "none" then ok, err = pcall( typedb[o.m])
  else ok, err = pcall( typedb[o.m], kinds[o.obj](), (table.unpack or unpack)( a, 1, #o.args)) end
  ev.failed = not ok
  ev.msg = tostring( err)
end

-- Several type databases may be alive at once: op.db selects one (default 1)
local dbs, trees = {}, {}
for line in io.lines( arg[1]) do
  local o = assert( load( "return " .. line))()
  local ev = {op=o.op, db=o.db or 1}
  if o.op == "new" then
    dbs[ev.db] = {typedb=mewa.typedb(), handles={}}
    ev.ok = true
  elseif o.op == "gc" then
    collectgarbage()
    ev = nil
  else
    typedb, handles = dbs[ev.db].typedb, dbs[ev.db].handles
    trees[ev.db] = trees[ev.db] or {}
    kept = trees[ev.db]
    local ok, err = pcall( ops[o.op], o, ev)
    ev.ok = ok
    if not ok then
      if type(err) == "string" and err:find( "typedb.lua:%d+:") and not err:find( "#%d+ ") then error( err) end
      ev.err = tostring( err)
    end
  end
  if ev then out:write( J.encode( ev), "\n"); out:flush() end
end
out:close()
