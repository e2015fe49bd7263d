"""C05: rotation conversions."""
import itertools

import torch
from symx.harness import case
from pytorch3d import transforms as tr
from pytorch3d.transforms import rotation_conversions as rc

I3 = torch.eye(3)[None]


def orth(ctx, R, name="matrix"):
    ctx.eq(name + " is orthonormal", R @ R.transpose(-1, -2), torch.eye(3).expand(R.shape))
    ctx.eq(name + " has determinant one", torch.det(R), torch.ones(R.shape[:-2]))


def ref_q2m(q):
    """reference: rotation of a quaternion of any norm, entry by entry"""
    w, x, y, z = q.unbind(-1)
    n = (q * q).sum(-1)
    R = torch.stack([
        w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
        2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
        2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z], -1)
    return (R / n[..., None]).reshape(q.shape[:-1] + (3, 3))


@case(bounds="two arbitrary non-zero quaternions in a batch, also with extra batch dimensions")
def quaternion_to_matrix(ctx):
    q = ctx.real("q", (2, 1, 4))
    ctx.assume((q * q).sum(-1) > 0)
    R = rc.quaternion_to_matrix(q)
    orth(ctx, R)
    ctx.eq("entries", R, ref_q2m(q))


@case(bounds="one arbitrary rotation (unit quaternion parametrisation)", weight=3)
def matrix_to_quaternion(ctx):
    R, q = ctx.rotation("r", (1,))
    p = rc.matrix_to_quaternion(R)
    ctx.eq("unit quaternion", (p * p).sum(-1), torch.ones(1))
    ctx.eq("same rotation", rc.quaternion_to_matrix(p), R)
    ctx.true("real part is non-negative", p[..., 0] >= 0)


@case(bounds="batch of two rotations, the second one fixed", weight=3)
def matrix_to_quaternion_batch(ctx):
    R, q = ctx.rotation("r")
    R2 = torch.stack([R, ctx.const([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])])[None]
    p = rc.matrix_to_quaternion(R2)
    ctx.eq("same rotations", ref_q2m(p), R2)


CONV = ["".join(c) for c in itertools.product("XYZ", repeat=3) if c[0] != c[1] and c[1] != c[2]]


def axis_rot(ax, c, s):
    o, z = torch.ones_like(c), torch.zeros_like(c)
    return torch.stack({"X": (o, z, z, z, c, -s, z, s, c), "Y": (c, z, s, z, o, z, -s, z, c), "Z": (c, -s, z, s, c, z, z, z, o)}[ax], -1).reshape(c.shape + (3, 3))


@case(params=[(c,) for c in CONV], bounds="three arbitrary angles, each convention")
def euler_to_matrix(ctx, conv):
    a = ctx.real("a", (1, 3), -4, 4)
    R = rc.euler_angles_to_matrix(a, conv)
    orth(ctx, R)
    ref = None
    for k, ax in enumerate(conv):
        M = axis_rot(ax, torch.cos(a[:, k]), torch.sin(a[:, k]))
        ref = M if ref is None else ref @ M
    ctx.eq("product of the three axis rotations", R, ref)


@case(params=[(c,) for c in CONV], bounds="arbitrary rotation built from three angles, outside gimbal lock", weight=2)
def matrix_to_euler(ctx, conv):
    # arbitrary rotation as a product of three axis rotations (surjective), cos/sin pairs symbolic
    u = ctx.unit("cs", 2, (3,))
    c, s = u[:, 0], u[:, 1]
    tb = conv[0] != conv[2]
    if tb:
        ctx.assume(c[1] > 0)  # every rotation outside gimbal lock has such a factorisation
    else:
        ctx.assume(s[1] > 0)
    R = (axis_rot(conv[0], c[0:1], s[0:1]) @ axis_rot(conv[1], c[1:2], s[1:2])) @ axis_rot(conv[2], c[2:3], s[2:3])
    a = rc.matrix_to_euler_angles(R, conv)
    for k in range(3):
        ctx.eq(f"cosine of angle {k}", torch.cos(a[:, k]), c[k:k + 1])
        ctx.eq(f"sine of angle {k}", torch.sin(a[:, k]), s[k:k + 1])
    ctx.eq("same rotation", rc.euler_angles_to_matrix(a, conv), R)


@case(params=[(c,) for c in CONV], bounds="arbitrary rotation outside gimbal lock: range of the central angle")
def euler_central_range(ctx, conv):
    R, q = ctx.rotation("r", (1,))
    a = rc.matrix_to_euler_angles(R, conv)[0, 1]
    pi = 3.1416
    if conv[0] != conv[2]:
        ctx.le("central angle <= pi/2", a, pi / 2)
        ctx.le("central angle >= -pi/2", torch.full((), -pi / 2), a)
    else:
        ctx.le("central angle <= pi", a, pi)
        ctx.le("central angle >= 0", torch.zeros(()), a)


def rodrigues(v):
    """reference rotation matrix: exp of the hat matrix by Rodrigues' formula"""
    th2 = (v * v).sum(-1)
    th = th2.sqrt()
    x, y, z = v.unbind(-1)
    zo = torch.zeros_like(x)
    K = torch.stack([zo, -z, y, z, zo, -x, -y, x, zo], -1).reshape(v.shape[:-1] + (3, 3))
    return torch.eye(3) + (torch.sin(th) / th)[..., None, None] * K + ((1 - torch.cos(th)) / th2)[..., None, None] * (K @ K)


@case(params=[(False,), (True,)], bounds="two arbitrary non-zero rotation vectors in a batch")
def axis_angle_to_matrix(ctx, fast):
    v = ctx.real("v", (2, 3))
    ctx.assume((v * v).sum(-1) > 0.01)
    R = rc.axis_angle_to_matrix(v, fast=fast)
    orth(ctx, R)
    ctx.eq("rotation about the axis by the norm", R, rodrigues(v))


@case(params=[(False,), (True,)], bounds="zero rotation vector inside a batch")
def axis_angle_zero(ctx, fast):
    v = ctx.real("v", (1, 3))
    ctx.assume((v * v).sum(-1) > 0.01)
    vv = torch.cat([v, torch.zeros(1, 3)])
    R = rc.axis_angle_to_matrix(vv, fast=fast)
    ctx.eq("identity for the zero vector", R[1], torch.eye(3))
    ctx.eq("other element unaffected", R[0], rodrigues(v)[0])


@case(bounds="arbitrary axis and angle")
def axis_angle_to_quaternion(ctx):
    v = ctx.real("v", (1, 3))
    ctx.assume((v * v).sum(-1) > 0.01)
    q = rc.axis_angle_to_quaternion(v)
    ctx.eq("unit", (q * q).sum(-1), torch.ones(1))
    ctx.eq("rotation", ref_q2m(q), rodrigues(v))
    ctx.eq("real part is the cosine of half the angle", q[:, 0], torch.cos(v.norm(dim=-1) / 2))


@case(bounds="arbitrary unit quaternion outside the identity", weight=2)
def quaternion_to_axis_angle(ctx):
    q = ctx.unit("q", 4, (1,))
    ctx.assume((q[:, 1:] ** 2).sum(-1) > 0.01)
    v = rc.quaternion_to_axis_angle(q)
    p = rc.axis_angle_to_quaternion(v)
    ctx.eq("round trip through the axis angle gives the quaternion", p, q)
    # direction
    ctx.eq("axis is parallel to the vector part", torch.cross(v, q[:, 1:], dim=-1), torch.zeros(1, 3))
    ctx.true("axis has the direction of the vector part", (v * q[:, 1:]).sum(-1) >= 0)


@case(params=[(False,), (True,)], bounds="two rotations in a batch, angle in (0.01, pi - 0.01), arbitrary axes", weight=3)
def matrix_to_axis_angle(ctx, fast):
    cs = ctx.unit("cs", 2, (1,))
    ax = ctx.unit("axis", 3, (1,))
    c, s = cs[:, 0], cs[:, 1]
    ctx.assume(s > 0.02)
    x, y, z = ax.unbind(-1)
    zo = torch.zeros_like(x)
    K = torch.stack([zo, -z, y, z, zo, -x, -y, x, zo], -1).reshape(1, 3, 3)
    R = torch.eye(3) + s * K + (1 - c) * (K @ K)
    if fast:
        ang = torch.atan2(s, c)
        ctx.assume(ang < 3.14)
        ctx.assume(ang > 0.01)
        v = rc.matrix_to_axis_angle(R, fast=True)
        ctx.eq("axis times angle", v, ax * ang)
    else:
        # half-angle quaternion
        v = rc.matrix_to_axis_angle(R, fast=False)
        ctx.eq("axis angle of the quaternion", v, rc.quaternion_to_axis_angle(rc.matrix_to_quaternion(R)))


@case(bounds="arbitrary pairs of 3-vectors that are linearly independent", weight=2)
def six_d(ctx):
    d6 = ctx.real("d", (1, 6), -100, 100)
    a, b = d6[:, :3], d6[:, 3:]
    ctx.assume((a * a).sum(-1) > 0.01)
    ctx.assume((a * a).sum(-1) < 30001)  # implied by the bounds
    cr = torch.cross(a, b, dim=-1)
    ctx.assume((cr * cr).sum(-1) > 0.01)
    # keep the normalisation floor (1e-12) out of reach
    R = rc.rotation_6d_to_matrix(d6)
    orth(ctx, R)
    ctx.eq("first row is the normalised first vector", R[:, 0] * a.norm(dim=-1, keepdim=True), a)
    ctx.eq("third row is orthogonal to both", (R[:, 2:] * torch.stack([a, b], 1)).sum(-1), torch.zeros(1, 2))
    ctx.true("second row has positive component along the second vector", (R[:, 1] * b).sum(-1) > 0)


@case(bounds="arbitrary rotation")
def six_d_roundtrip(ctx):
    R, q = ctx.rotation("r", (1,))
    d = rc.matrix_to_rotation_6d(R)
    ctx.eq("first two rows", d, R[:, :2].reshape(1, 6))
    ctx.eq("round trip", rc.rotation_6d_to_matrix(d), R)
    ctx.true("returns a copy", d.data_ptr() != R.data_ptr() if not ctx.symbolic else True)


@case(bounds="arbitrary quaternions and points, with broadcasting")
def quaternion_algebra(ctx):
    a = ctx.real("a", (2, 4))
    b = ctx.real("b", (1, 4))
    pt = ctx.real("p", (2, 3))
    ctx.assume((a * a).sum(-1) > 0)
    ctx.assume((b * b).sum(-1) > 0)
    m = rc.quaternion_raw_multiply(a, b)
    ctx.eq("product matches the matrix product", ref_q2m(m), ref_q2m(a) @ ref_q2m(b))
    ctx.eq("norms multiply", (m * m).sum(-1), (a * a).sum(-1) * (b * b).sum(-1))
    n = rc.quaternion_multiply(a, b)
    ctx.eq("standardised product is the same rotation", ref_q2m(n), ref_q2m(a) @ ref_q2m(b))
    ctx.true("standard form", n[..., 0] >= 0)
    st = rc.standardize_quaternion(a)
    ctx.eq("standard form is the same rotation", ref_q2m(st), ref_q2m(a))
    ctx.true("standard form has non-negative real part", st[..., 0] >= 0)


@case(bounds="arbitrary unit quaternions and points, with broadcasting")
def quaternion_apply_invert(ctx):
    a = ctx.unit("a", 4, (2,))
    pt = ctx.real("p", (3, 2, 3))
    r = rc.quaternion_apply(a, pt)
    ctx.eq("application equals the matrix application", r, (ref_q2m(a) @ pt[..., None])[..., 0])
    inv = rc.quaternion_invert(a)
    ctx.eq("inverse is the transposed rotation", ref_q2m(inv), ref_q2m(a).transpose(-1, -2))
    one = torch.tensor([1.0, 0, 0, 0]).expand(2, 4)
    ctx.eq("a * inverse is the identity", rc.quaternion_raw_multiply(a, inv), one)
    ctx.eq("inverse undoes the application", rc.quaternion_apply(inv, r), pt)


@case(bounds="every outcome of the four normal draws (not all zero)")
def random_rotations(ctx):
    q = rc.random_quaternions(2)
    nz = (q * q).sum(-1)
    R = rc.random_rotations(1)
    # R = a valid rotation whatever is drawn, unless all four draws vanish
    d = R[0] @ R[0].transpose(0, 1)
    ctx.true("real part non-negative", q[:, 0] >= 0)
    ctx.eq("unit quaternions", nz, torch.ones(2))
    ctx.eq("random rotation is orthonormal", d, torch.eye(3))


@case(bounds="batch of two half-turn rotations about arbitrary axes, fast conversion", weight=3)
def half_turn_fast(ctx):
    ax = ctx.unit("axis", 3, (2,))
    R = 2 * ax[:, :, None] * ax[:, None, :] - torch.eye(3)
    v = rc.matrix_to_axis_angle(R, fast=True)
    ctx.eq("the axis is parallel to the rotation axis", torch.cross(v, ax, dim=-1), torch.zeros(2, 3))
    ctx.eq("the angle is pi", (v * v).sum(-1), (torch.full((2,), torch.pi) * torch.ones(2)) ** 2)
