// Functions used by the generated Yorick scripts of p32_yorick.cpp.
vpO = array(double, 4096);
vpN = 0;
func vp_load(name, n)
{
  extern vpD, vpN;
  vpN = 0;
  vpD = [];
  if (n > 0) {
    f = open(name, "rb");
    vpD = array(double, n);
    _read, f, 0, vpD;
    close, f;
  }
}
func vpd(k, n) { return vpD(k+1:k+n); }
// Array of given type and dimensions (scalar when there are no dimensions).
func vpa(type, dims, k)
{
  if (dims(1) == 0) return type(vpD(k+1));
  x = array(type, dims);
  x(*) = vpD(k+1:k+numberof(x));
  return x;
}
func vp_push(v)
{
  extern vpO, vpN;
  n = numberof(v);
  while (vpN + n > numberof(vpO)) grow, vpO, vpO;
  vpO(vpN+1:vpN+n) = v(*);
  vpN += n;
}
// Append a value, with its type and its dimensions, to the output.
func vpo(v)
{
  if (is_void(v)) { vp_push, [0]; return; }
  if (is_string(v)) {
    if (! v) { vp_push, [6]; return; }
    c = strchar(v);
    vp_push, [5, numberof(c) - 1];
    if (numberof(c) > 1) vp_push, c(1:-1);
    return;
  }
  id = identof(v);
  d = dimsof(v);
  vp_push, [(id == Y_INT ? 1 : (id == Y_LONG ? 2 : (id == Y_FLOAT ? 3 : (id == Y_DOUBLE ? 4 : 9)))), d(1)];
  if (d(1) > 0) vp_push, d(2:);
  vp_push, v;
}
func vp_save(name)
{
  f = open(name, "wb");
  if (vpN > 0) _write, f, 0, vpO(1:vpN);
  close, f;
}
// Objective functions: the value (and the gradient, the constraints) recorded for the same variables.
// A record is made of the variables (vpX elements), one value and vpM other values; there are vpR records at vpB.
func vp_lookup(x)
{
  if (numberof(x) != vpX) error, "VP: unexpected number of variables";
  d = dimsof(x);
  if (numberof(d) != numberof(vpDims) || anyof(d != vpDims)) error, "VP: unexpected dimensions";
  if (structof(x) != vpType) error, "VP: unexpected type of variables";
  y = double(x)(*);
  s = vpX + 1 + vpM;
  for (r = vpR - 1; r >= 0; --r) {
    o = vpB + r*s;
    if (allof(vpD(o+1:o+vpX) == y)) return o;
  }
  error, "VP: unexpected variables";
}
func vp_fg(x, gx)
{
  o = vp_lookup(x);
  if (structof(gx) != vpType || anyof(dimsof(gx) != vpDims)) error, "VP: unexpected gradient";
  if (numberof(vpDims) == 1) error, "VP: scalar";
  gx(*) = vpD(o+vpX+2:o+2*vpX+1);
  return vpD(o+vpX+1);
}
func vp_fgr(x, &gx)
{
  o = vp_lookup(x);
  gx = vpa(vpType, vpDims, o + vpX + 1);
  return vpD(o+vpX+1);
}
func vp_f(x) { return vpD(vp_lookup(x)+vpX+1); }
func vp_c(x) { o = vp_lookup(x); return vpD(o+vpX+2:o+vpX+1+vpM); }
func vp_run(script, data, n, out)
{
  if (catch(-1)) {
    write, format="VPERR:%s\n", catch_message;
    vp_save, out;
    write, format="%s\n", "VPDONE";
    return;
  }
  vp_load, data, n;
  include, script, 1;
  vp_case;
  vp_save, out;
  write, format="%s\n", "VPDONE";
}
