from optvc.registry import K
from optvc.spec import specdef, Loop

specdef("sq(x) := x*x")
specdef("dot3(a,b) := a[0]*b[0]+a[1]*b[1]+a[2]*b[2]")
specdef("n2(a) := a[0]*a[0]+a[1]*a[1]+a[2]*a[2]")
specdef("norm3(a) := sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2])")

V = ("C14",)
K("vec_set", props=V, shapes={"dest": "3"}, assigns=["dest[0:3]"],
  ensures=["dest[0] == x", "dest[1] == y", "dest[2] == z"])
K("vec_copy", props=V, shapes={"dest": "3", "src": "3"}, assigns=["dest[0:3]"],
  ensures=["forall(0,3,lambda i: dest[i] == old(src[i]))"], alias=[(("dest", "src"),)])
for nm, a, b, op in (("vec_subt", "from", "sub", "-"), ("vec_add", "vec1", "vec2", "+")):
    K(nm, props=V, shapes={a: "3", b: "3", "output": "3"}, assigns=["output[0:3]"],
      ensures=["forall(0,3,lambda i: output[i] == old(P%s[i]) %s old(P%s[i]))".replace("P%s", "%s") % (a, op, b)] if a != "from" else
      ["forall(0,3,lambda i: output[i] == old(from_[i]) - old(sub[i]))"],
      alias=[(("output", a),), (("output", b),), ((a, b),), (("output", a), (b, a))], exact=True)
K("vec_scalar_mul", props=V, shapes={"vec": "3", "output": "3"}, assigns=["output[0:3]"],
  ensures=["forall(0,3,lambda i: output[i] == scalar*old(vec[i]))"], alias=[(("output", "vec"),)], exact=True)
K("vec_diff_norm", props=V, shapes={"vec1": "3", "vec2": "3"}, alias=[(("vec2", "vec1"),)],
  ensures=["result >= 0", "result*result == sq(vec1[0]-vec2[0])+sq(vec1[1]-vec2[1])+sq(vec1[2]-vec2[2])"])
K("vec_norm", props=V, shapes={"vec": "3"}, ensures=["result >= 0", "result*result == n2(vec)", "result == norm3(vec)"])
K("vec_dot", props=V, shapes={"vec1": "3", "vec2": "3"}, alias=[(("vec2", "vec1"),)], ensures=["result == dot3(vec1, vec2)"], exact=True)
K("vec_cross", props=V, shapes={"vec1": "3", "vec2": "3", "out": "3"}, assigns=["out[0:3]"], alias=[(("vec2", "vec1"),)],
  ensures=["out[0] == vec1[1]*vec2[2]-vec1[2]*vec2[1]", "out[1] == vec1[2]*vec2[0]-vec1[0]*vec2[2]", "out[2] == vec1[0]*vec2[1]-vec1[1]*vec2[0]",
           "dot3(out, vec1) == 0", "dot3(out, vec2) == 0"], exact=True)
K("vec_cmp", props=V, shapes={"vec1": "3", "vec2": "3"}, alias=[(("vec2", "vec1"),)], exact=True,
  ensures=["iff(result != 0, vec1[0] == vec2[0] and vec1[1] == vec2[1] and vec1[2] == vec2[2])", "result == 0 or result == 1"])
K("vec_approx_cmp", props=V, shapes={"vec1": "3", "vec2": "3"}, alias=[(("vec2", "vec1"),)], exact=True,
  ensures=["iff(result != 0, abs(vec1[0]-vec2[0]) <= eps and abs(vec1[1]-vec2[1]) <= eps and abs(vec1[2]-vec2[2]) <= eps)", "result == 0 or result == 1"])
K("unit_vector", props=V, shapes={"vec": "3", "out": "3"}, assigns=["out[0:3]"], alias=[(("out", "vec"),)],
  ensures=["imp(old(n2(vec)) != 0, n2(out) == 1)",
           "imp(old(n2(vec)) != 0, forall(0,3,lambda i: out[i]*old(norm3(vec)) == old(vec[i])))",
           "imp(old(n2(vec)) == 0, forall(0,3,lambda i: out[i] == 0))",
           "forall(0,3,lambda i: out[i]*old(norm3(vec)) == old(vec[i]))"])
