"""C38: image cropping and resizing helpers keep boxes, images and cameras consistent."""
import itertools
import numpy as np
import torch
from symx.harness import case
from pytorch3d.implicitron.dataset.frame_data import FrameData
from pytorch3d.implicitron.dataset.utils import (adjust_camera_to_bbox_crop_, adjust_camera_to_image_scale_, bbox_xywh_to_xyxy, bbox_xyxy_to_xywh,
                                                 clamp_box_to_image_bounds_and_round, crop_around_box, get_bbox_from_mask, get_clamp_bbox, rescale_bbox, resize_image)
from pytorch3d.renderer.cameras import PerspectiveCameras

KW = dict(dtype="float32", feas_ms=300)


@case(params=[dict(size=s, thr=t) for s in ((2, 2), (3, 2), (2, 4), (3, 3)) for t in (0.5, 0.25)], bounds="every mask of up to 3x3 pixels with values 0 and 1 and at least two pixels set", **KW)
def mask_box(ctx, size, thr):
    """the smallest box that contains every pixel of the mask"""
    on = ctx.boolean("m", size)
    mask = np.array([[1.0 if ctx.fork(on[i, j]) else 0.0 for j in range(size[1])] for i in range(size[0])], dtype=np.float32)
    if mask.sum() < 2:
        ctx.prune()
    x, y, w, h = get_bbox_from_mask(mask, thr)
    ys, xs = np.nonzero(mask)
    ctx.true("box", (x, y, x + w, y + h) == (xs.min(), ys.min(), xs.max() + 1, ys.max() + 1))


@case(params=[dict(clamp=c, d=d) for c in (None, 2, 0) for d in ("float32", "int64")], bounds="arbitrary boxes", **{**KW, "dtype": "float32"})
def forms(ctx, clamp, d):
    b = ctx.real("b", (4,), -8, 8) if d == "float32" else ctx.integer("b", (4,), -8, 8)
    xyxy = bbox_xywh_to_xyxy(b, clamp_size=clamp)
    side = b[2:] if clamp is None else torch.where(b[2:] < clamp, torch.full_like(b[2:], clamp), b[2:])
    ctx.eq("corners", xyxy, torch.stack([b[0], b[1], b[0] + side[0], b[1] + side[1]]))
    ctx.eq("and back", bbox_xyxy_to_xywh(xyxy), torch.stack([b[0], b[1], side[0], side[1]]))
    if clamp is None:
        ctx.eq("back and forth", bbox_xywh_to_xyxy(bbox_xyxy_to_xywh(b)), b)


@case(params=[dict(context=c, d=d) for c in (0.0, 0.25, 1.0) for d in ("float32", "int64")], bounds="boxes with sides between -2 and 8, three context factors", **KW)
def expand(ctx, context, d):
    """the box grown about its centre by the context, at least two pixels on each side; boxes without pixels are rejected"""
    b = ctx.real("b", (4,), -2, 8) if d == "float32" else ctx.integer("b", (4,), -2, 8)
    before = b.clone()
    side = b[2:] * (1 + context)
    small = bool(ctx.fork((side <= 1.0).any()))
    try:
        out = get_clamp_bbox(b, box_crop_context=context)
        ctx.true("kept", not small)
    except ValueError:
        ctx.true("rejected", small)
        return
    ctx.eq("input unchanged", b, before)
    s = torch.where(side < 2, torch.full_like(side, 2), side)
    ctx.eq("low corner", out[:2], b[:2] - b[2:] * context / 2)
    ctx.eq("high corner", out[2:], b[:2] - b[2:] * context / 2 + s)


@case(params=[dict(size=s, d=d) for s in ((4, 6), (3, 2)) for d in ("float32", "int64")], bounds="boxes with corners between -8 and 12", **KW)
def clamp(ctx, size, d):
    """inside the image, rounded, unchanged where it already is inside and whole"""
    b = ctx.real("b", (4,), -8, 12) if d == "float32" else ctx.integer("b", (4,), -8, 12)
    before = b.clone()
    out = clamp_box_to_image_bounds_and_round(b, size)
    ctx.true("type", out.dtype == torch.int64)
    ctx.eq("input unchanged", b, before)
    for i in range(4):
        lim = size[1] if i % 2 == 0 else size[0]
        ctx.le("not below", torch.zeros(()), out[i])
        ctx.le("not above", out[i], torch.full((), float(lim)))
        c = torch.where(b[i] < 0, torch.zeros_like(b[i]), torch.where(b[i] > lim, torch.full_like(b[i], lim), b[i]))
        ctx.true("nearest whole number", ((out[i] - c <= 0.5) & (c - out[i] <= 0.5)).all())


@case(params=[dict(size=s) for s in ((3, 4), (2, 2))], bounds="images of 3x4 and 2x2 pixels, every box", **KW)
def crop(ctx, size):
    """exactly the pixels of the clamped box"""
    im = ctx.real("i", (2,) + size)
    x0, y0 = ctx.pick("x0", range(-1, size[1])), ctx.pick("y0", range(-1, size[0]))
    x1, y1 = ctx.pick("x1", range(max(x0, 0) + 1, size[1] + 2)), ctx.pick("y1", range(max(y0, 0) + 1, size[0] + 2))
    out = crop_around_box(im, torch.tensor([x0, y0, x1, y1]))
    want = im[:, max(y0, 0):min(y1, size[0]), max(x0, 0):min(x1, size[1])]
    ctx.true("shape", out.shape == want.shape)
    ctx.eq("pixels", out, want)


@case(params=[dict(a=a, b=b) for a, b in (((4, 6), (8, 12)), ((8, 4), (2, 1)), ((3, 3), (3, 3)), ((2, 4), (3, 4)))], bounds="arbitrary boxes, four pairs of sizes", **KW)
def rescale(ctx, a, b):
    """scaled by the ratio of the sizes (their average when it differs between the sides)"""
    x = ctx.real("b", (4,), -8, 12)
    r = (b[0] / a[0] + b[1] / a[1]) / 2
    for orig, new in ((a, b), (torch.tensor(a), torch.tensor(b))):
        ctx.eq("scaled", rescale_bbox(x, orig, new), x * r)


def camera(ctx, tag=""):
    return PerspectiveCameras(focal_length=ctx.real("f" + tag, (1, 2), 0.25, 4), principal_point=ctx.real("c" + tag, (1, 2), -1, 1))


def pixel(cam, p, wh):
    """pixel of a view-space point: half the size minus the NDC location times half the short side"""
    s = (wh[0] if wh[0] < wh[1] else wh[1]) / 2.0
    return [wh[i] / 2.0 - s * (cam.focal_length[0, i] * p[i] / p[2] + cam.principal_point[0, i]) for i in (0, 1)]


@case(params=[dict(wh=s, free=f) for s in ((4, 4), (2, 4), (8, 4)) for f in ("corner", "size")], bounds="images of 4x4, 2x4 and 8x4 pixels; arbitrary crop corner, or side lengths; free intrinsics and point", **KW)
def camera_crop(ctx, wh, free):
    cam = camera(ctx)
    p = torch.cat([ctx.real("p", (2,), -2, 2), ctx.real("z", (1,), 0.5, 4)])
    old = pixel(cam, p, wh)
    box = torch.cat([ctx.real("xy", (2,), -2, 4), torch.tensor([3.0, 2.0])]) if free == "corner" else torch.cat([torch.tensor([1.0, 2.0]), ctx.real("wh", (2,), 1, 8)])
    adjust_camera_to_bbox_crop_(cam, torch.tensor(wh), box)
    small = box[2] if ctx.fork(box[2] < box[3]) else box[3]
    for i in (0, 1):
        new = box[2 + i] / 2 - small / 2 * (cam.focal_length[0, i] * p[i] / p[2] + cam.principal_point[0, i])
        ctx.eq("moved pixel", new, old[i] - box[i], tol=(1e-4, 1e-4))
    if free == "corner":
        scr = cam.transform_points_screen(p[None, None], image_size=((2, 3),))[0, 0]
        for i in (0, 1):
            ctx.eq("moved pixel on screen", scr[i], old[i] - box[i], tol=(1e-4, 1e-4))


@case(params=[dict(a=a, b=b) for a, b in (((4, 4), (8, 8)), ((2, 4), (4, 8)), ((8, 4), (4, 4)), ((4, 2), (3, 9)), ((3, 3), (6, 2)), ((4, 8), (5, 8)))],
      bounds="six pairs of image sizes, free intrinsics and point", **KW)
def camera_scale(ctx, a, b):
    """scaled by the smaller ratio of the sides: the image sits in the top left corner of the new one"""
    cam = camera(ctx)
    p = torch.cat([ctx.real("p", (2,), -2, 2), ctx.real("z", (1,), 0.5, 4)])
    old = pixel(cam, p, a)
    adjust_camera_to_image_scale_(cam, torch.tensor(a), torch.tensor(b))
    r = min(b[0] / a[0], b[1] / a[1])
    new = pixel(cam, p, b)
    scr = cam.transform_points_screen(p[None, None], image_size=(b[::-1],))[0, 0]
    for i in (0, 1):
        ctx.eq("scaled pixel", new[i], old[i] * r, tol=(1e-4, 1e-4))
        ctx.eq("scaled pixel on screen", scr[i], old[i] * r, tol=(1e-4, 1e-4))


def frame(ctx, size, depth_scale, cam):
    h, w = size
    d = (h // depth_scale, w // depth_scale)
    return FrameData(frame_number=torch.tensor([0]), sequence_name="s", sequence_category="c", image_size_hw=torch.tensor(size), effective_image_size_hw=torch.tensor(size),
                     image_rgb=ctx.real("rgb", (3,) + size), fg_probability=ctx.real("fg", (1,) + size), depth_map=ctx.real("d", (1,) + d), depth_mask=ctx.real("dm", (1,) + d),
                     camera=cam, image_path="i", mask_path="m", depth_path="d")


@case(params=[dict(size=s, depth=d, box=b, context=c) for s, d in (((4, 6), 1), ((6, 4), 2), ((4, 4), 2)) for b in ((0, 0, 2, 2), (2, 0, 2, 4), (-2, 2, 6, 4), (2, 2, 2, 2)) for c in (0.0, 1.0)],
      bounds="frames of up to 4x6 pixels with depth maps of the same or half the size, four boxes, two contexts; all pixels, intrinsics and the point symbolic", **KW)
def frame_crop(ctx, size, depth, box, context):
    """image, mask, depth and camera are cropped by the same (expanded, clamped) box"""
    cam = camera(ctx)
    p = torch.cat([ctx.real("p", (2,), -2, 2), ctx.real("z", (1,), 0.5, 4)])
    wh = (size[1], size[0])
    old = pixel(cam, p, wh)
    fr = frame(ctx, size, depth, cam)
    rgb, fg, dm, dk = fr.image_rgb.clone(), fr.fg_probability.clone(), fr.depth_map.clone(), fr.depth_mask.clone()
    x0, y0, w, h = box
    x0, y0, x1, y1 = x0 - w * context / 2, y0 - h * context / 2, x0 + w + w * context / 2, y0 + h + h * context / 2
    x0, x1, y0, y1 = int(max(x0, 0)), int(min(x1, wh[0])), int(max(y0, 0)), int(min(y1, wh[1]))
    fr.crop_by_given_bbox_(context, torch.tensor(box))
    ctx.true("box", fr.crop_bbox_xywh.tolist() == [x0, y0, x1 - x0, y1 - y0])
    ctx.true("size", fr.effective_image_size_hw.tolist() == [y1 - y0, x1 - x0])
    for name, got, src, k in (("image", fr.image_rgb, rgb, 1), ("mask", fr.fg_probability, fg, 1), ("depth", fr.depth_map, dm, depth), ("depth mask", fr.depth_mask, dk, depth)):
        want = src[:, y0 // k:y1 // k, x0 // k:x1 // k]
        ctx.true(name + " shape", got.shape == want.shape)
        ctx.eq(name, got, want)
    new = pixel(fr.camera, p, (x1 - x0, y1 - y0))
    for i, c in enumerate((x0, y0)):
        ctx.eq("moved pixel", new[i], old[i] - c, tol=(1e-4, 1e-4))


@case(params=[dict(size=s, new=n, how=h) for s, n in (((2, 2), (4, 4)), ((4, 2), (2, 1)), ((2, 4), (2, 2)), ((2, 2), (2, 5))) for h in ("image", "frame")], bounds="images of up to 4x4 pixels, nearest sampling of symbolic pixels", **KW)
def resize(ctx, size, new, how):
    """the image scaled by the smaller ratio in the top left corner, zeros elsewhere, and its mask"""
    r = min(new[0] / size[0], new[1] / size[1])
    h, w = int(size[0] * r), int(size[1] * r)
    inside = torch.zeros(1, *new)
    inside[:, :h, :w] = 1.0
    pick = [[(min(int(i / r), size[0] - 1), min(int(j / r), size[1] - 1)) for j in range(w)] for i in range(h)]

    def check(name, got, src):
        ctx.true(name + " shape", tuple(got.shape) == (src.shape[0],) + tuple(new))
        for i, j in itertools.product(range(new[0]), range(new[1])):
            want = src[:, pick[i][j][0], pick[i][j][1]] if i < h and j < w else torch.zeros(src.shape[0])
            ctx.eq(name, got[:, i, j], want)
    if how == "image":
        im = ctx.real("i", (2,) + size)
        out, scale, mask = resize_image(im, new[0], new[1], mode="nearest")
        check("nearest", out, im)
        ctx.true("scale", abs(scale - r) < 1e-6)
        ctx.eq("mask", mask, inside)
        out, scale, mask = resize_image(im, None, None)
        ctx.true("no resizing", out.shape == im.shape and scale == 1.0 and tuple(mask.shape) == (1,) + size)
        ctx.eq("no resizing", out, im)
        return
    cam = camera(ctx)
    p = torch.cat([ctx.real("p", (2,), -2, 2), ctx.real("z", (1,), 0.5, 4)])
    old = pixel(cam, p, size[::-1])
    fr = frame(ctx, size, 1, cam)
    fr.image_rgb = None
    fg, dm, dk = fr.fg_probability.clone(), fr.depth_map.clone(), fr.depth_mask.clone()
    fr.resize_frame_(torch.tensor(new))
    check("mask", fr.fg_probability, fg), check("depth", fr.depth_map, dm), check("depth mask", fr.depth_mask, dk)
    ctx.true("size", fr.effective_image_size_hw.tolist() == list(new))
    moved = pixel(fr.camera, p, new[::-1])
    for i in (0, 1):
        ctx.eq("scaled pixel", moved[i], old[i] * r, tol=(1e-4, 1e-4))
