"""C34: image post-processing keeps sizes, alpha and transparency contracts"""
import contextlib
import io
import itertools
from hypothesis import strategies as st
from PIL import Image
from x7.geom import anim, imagehelp
from x7.geom.anim import Builder, composed, getalpha, single
from x7.geom.drawing import bbox_max
from x7.geom.transform import Transform
from harness import gen
from harness.core import Registry, expect, near, raises, same

R = Registry('C34', 'Images of modes RGBA, RGB, LA and L from 1x1 to 24x24, mostly empty, noisy, flat and with few or many '
             'colours (up to and beyond a palette), sequences of 1..6 frames with empty ones among them, target sizes up and '
             'down, integer and fractional factors, crops inside and across the edges. Non-trivial: the image has several '
             'colours and is not square.')


def quiet(fn, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kw)


def rnd(seed, n):
    """Deterministic stream of n numbers 0..2**16"""
    x = (seed*2654435761 + 12345) & 0xFFFFFFFF
    out = []
    for _ in range(n):
        x ^= (x << 13) & 0xFFFFFFFF
        x ^= x >> 17
        x ^= (x << 5) & 0xFFFFFFFF
        out.append((x >> 7) & 0xFFFF)
    return out


SIZE = st.tuples(st.integers(1, 24), st.integers(1, 24)).map(list)
IMG = st.fixed_dictionaries(dict(size=SIZE, mode=st.sampled_from(['RGBA', 'RGBA', 'RGBA', 'RGB', 'L']),
                                 style=st.sampled_from(['noise', 'sparse', 'flat', 'empty', 'binary']),
                                 seed=st.integers(1, 10000)))


def pixels(s):
    """RGBA pixels of a spec"""
    w, h = s['size']
    style, seed = s['style'], s['seed']
    r = rnd(seed, 2*w*h)
    flat = tuple(rnd(seed, 4)[i] % 256 for i in range(4))
    out = []
    for i in range(w*h):
        a, b = r[2*i], r[2*i+1]
        noise = (a % 256, a >> 8, b % 256, b >> 8)
        if style == 'noise':
            out.append(noise)
        elif style == 'sparse':
            out.append(noise if (a ^ b) % 17 == 0 else (0, 0, 0, 0))
        elif style == 'flat':
            out.append(flat)
        elif style == 'empty':
            out.append((0, 0, 0, 0))
        else:
            out.append(noise[:3] + (255 if (a + b) % 3 else 0,))
    return out


def image(s, mode=None):
    im = Image.new('RGBA', tuple(s['size']))
    im.putdata(pixels(s))
    mode = mode or s['mode']
    return im if mode == 'RGBA' else im.convert(mode)


def snap(im):
    return im.mode, im.size, im.tobytes(), dict(im.info), im.palette and im.palette.tobytes()


def unchanged(ims, before, what):
    same([snap(i) for i in ims], before, what + ': input images')


@R.facet(st.tuples(IMG, SIZE).map(list), n=300)
def shrinking(v, cx):
    s, (w, h) = v
    im = image(s)
    cx.nt(s['style'] in ('noise', 'binary', 'sparse') and im.size != (w, h))
    cx.label('same size', im.size == (w, h))
    before = [snap(im)]
    out = Builder.resize_for_gif(im, w, h)
    unchanged([im], before, 'shrinking')
    expect(out is not im, 'a new image')
    same((out.size, out.mode), ((w, h), im.mode), 'size and mode')
    ref = im.resize((w, h), resample=Image.BICUBIC)
    if im.mode != 'RGBA':
        same(out.tobytes(), ref.tobytes(), 'pixels')
        return
    a, ra = out.getchannel('A').tobytes(), ref.getchannel('A').tobytes()
    expect(set(a) <= {0, 255}, 'alpha is on or off, found %r', sorted(set(a)))
    same([x == 255 for x in a], [x == 255 for x in ra], 'opaque exactly where the shrunk image is')
    same(out.convert('RGB').tobytes(), ref.convert('RGB').tobytes(), 'colours')
    if s['style'] == 'flat':
        full = pixels(s)[0][3] == 255
        same(set(a), {255 if full else 0}, 'alpha of a flat image')


FACTOR = gen.one_of(st.sampled_from([1, 1, 2, 2, 3, 4, 5]), st.sampled_from([1.0, 1.5, 2.0, 2.5, 0.5, 3.3]))
BOX = gen.one_of(st.none(), st.tuples(st.integers(-3, 20), st.integers(-3, 20), st.integers(1, 24), st.integers(1, 24)).map(list))


@R.facet(st.tuples(SIZE, st.lists(IMG, min_size=1, max_size=4), FACTOR, BOX, st.booleans(),
                   st.sampled_from(['RGBA', 'RGBA', 'RGB'])).map(list), n=300)
def scaling(v, cx):
    size, specs, f, box, own, mode = v
    ims = [image(dict(s, size=size), mode) for s in specs]
    bb = (box[0], box[1], box[0] + box[2], box[1] + box[3]) if box else None
    w, h = (box[2], box[3]) if box else size
    b = Builder(Image.new('RGBA', (5, 5)), Transform(), None)
    other = [Image.new('RGBA', (3, 9), 'red')]
    b.images = list(ims) if own else other
    before = [snap(i) for i in ims]
    tw, th = int(w / f + 1e-9), int(h / f + 1e-9)
    cx.nt(len(ims) > 1 and f != 1)
    cx.label('cropped', bool(box))
    cx.label('factor one', f == 1)
    if tw < 1 or th < 1:
        return
    out = b.scaled(f, bb) if own else b.scaled(f, bbox=bb, images=ims)
    unchanged(ims, before, 'scaling')
    if own:
        expect(len(b.images) == len(ims) and all(x is y for x, y in zip(b.images, ims)), 'frames of the builder')
    else:
        same(len(b.images), 1, 'frames of the builder')
    same(len(out), len(ims), 'number of frames')
    for im, o in zip(ims, out):
        c = im.crop(bb) if bb else im
        same((o.size, o.mode), ((tw, th), mode), 'size and mode')
        if f == 1:
            same(o.tobytes(), c.tobytes(), 'factor one changes nothing')
        else:
            want = Builder.resize_for_gif(c, tw, th)
            same(o.tobytes(), want.tobytes(), 'each frame is shrunk by itself')


def content_box(im):
    w, h = im.size
    data = list(im.convert('RGBA').getchannel('A').tobytes()) if im.mode == 'RGBA' else \
        [max(px) if isinstance(px, tuple) else px for px in im.getdata()]
    pts = [(i % w, i // w) for i, x in enumerate(data) if x]
    if not pts:
        return None
    return (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts) + 1, max(p[1] for p in pts) + 1)


@R.facet(st.tuples(SIZE, st.lists(IMG, min_size=1, max_size=6), st.sampled_from(['RGBA', 'RGBA', 'RGB', 'L']),
                   st.integers(0, 1000), st.booleans()).map(list), n=300)
def max_box(v, cx):
    size, specs, mode, order, own = v
    ims = [image(dict(s, size=size, style=s['style'] if s['style'] == 'empty' else 'sparse'), mode) for s in specs]
    boxes = [content_box(i) for i in ims]
    real = [b for b in boxes if b]
    cx.nt(len(set(real)) > 1)
    cx.label('empty frames', len(real) < len(boxes) and bool(real))
    b = Builder(Image.new('RGBA', (5, 5)), Transform(), None)
    b.images = ims if own else [Image.new('RGBA', (100, 100), 'red')]
    before = [snap(i) for i in ims]
    got = quiet(b.max_bbox) if own else quiet(b.max_bbox, ims)
    unchanged(ims, before, 'maximal box')
    if not real:
        return
    want = (min(x[0] for x in real), min(x[1] for x in real), max(x[2] for x in real), max(x[3] for x in real))
    same(tuple(got), want, 'smallest box covering every frame')
    perm = sorted(range(len(ims)), key=lambda i: (order*(i+1)*7919) % 1009)
    same(tuple(quiet(b.max_bbox, [ims[i] for i in perm])), want, 'box in another order')
    same(tuple(quiet(b.max_bbox, ims + ims[:1])), want, 'box with a frame repeated')


BB = st.tuples(*[gen.one_of(st.integers(-50, 50), st.floats(-50, 50, allow_nan=False))]*4).map(list)


@R.facet(st.lists(BB, min_size=2, max_size=4), n=300)
def box_union(v, cx):
    bs = [(min(a, c), min(b, d), max(a, c), max(b, d)) for a, b, c, d in v]
    a, b = bs[:2]
    want = (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))
    cx.nt(want not in (a, b))
    same(tuple(bbox_max(a, b)), want, 'box of two')
    same(tuple(bbox_max(b, a)), want, 'box of two swapped')
    same(tuple(bbox_max(list(a), list(b))), want, 'box of two lists')
    same(tuple(bbox_max(a, a)), a, 'box of one twice')
    for p in itertools.permutations(bs):
        acc = p[0]
        for x in p[1:]:
            acc = bbox_max(acc, x)
        same(tuple(acc), tuple(f(x[i] for x in bs) for i, f in enumerate((min, min, max, max))), 'box of several')


COLORS = {'white': (255, 255, 255), 'black': (0, 0, 0), 'red': (255, 0, 0), '#102030': (16, 32, 48)}
COLOR = gen.one_of(st.sampled_from(sorted(COLORS)), st.tuples(*[st.integers(0, 255)]*3).map(list))


@R.facet(st.tuples(IMG, COLOR, st.booleans(), st.integers(0, 255)).map(list), n=300)
def layers(v, cx):
    s, color, default, alpha = v
    im = image(s, 'RGBA')
    px = pixels(s)
    before = [snap(im)]
    c = COLORS[color] if isinstance(color, str) else tuple(color)
    arg = color if isinstance(color, str) else c
    cx.nt(s['style'] in ('noise', 'sparse', 'binary'))
    for mode in ('RGBA', 'RGB', 'L'):
        src = image(s, mode)
        lay = single(src, arg) if not default else single(src)
        want = (0, 0, 0) if default else c
        same((lay.size, lay.mode, set(lay.getdata())), (im.size, 'RGBA', {want + (255,)}), 'single colour layer')
    lay = single(im, c + (alpha,))
    same(set(lay.getdata()), {c + (alpha,)}, 'translucent layer')
    a = getalpha(im)
    same((a.size, a.mode, list(a.getdata())), (im.size, 'L', [p[3] for p in px]), 'extracted alpha')
    la = im.convert('LA')
    same(list(getalpha(la).getdata()), [p[3] for p in px], 'extracted alpha of a gray image')
    out = composed(im, arg) if not default else composed(im)
    base = (255, 255, 255) if default else c
    same((out.size, out.mode), (im.size, 'RGBA'), 'composition')
    same(set(getalpha(out).getdata()), {255}, 'composition is opaque')
    for i, (p, o) in enumerate(zip(px, out.getdata())):
        if p[3] == 0:
            same(o[:3], base, 'colour shows through pixel %d' % i)
        elif p[3] == 255:
            same(o[:3], p[:3], 'opaque pixel %d' % i)
        else:
            for q, r, b in zip(p, o, base):
                near(r, (q*p[3] + b*(255 - p[3]))/255, 1.01, 'blended pixel %d' % i)
    unchanged([im], before, 'layers')


PAL = st.fixed_dictionaries(dict(sizes=st.lists(SIZE, min_size=1, max_size=3), n=gen.one_of(
    st.integers(1, 6), st.integers(1, 300), st.integers(200, 256)), seed=st.integers(1, 10000), exact=st.booleans(),
    all=st.booleans()))


def color_images(s):
    """Images drawing on n colours"""
    step = 4 if s['exact'] else 1
    r = rnd(s['seed'], 3*s['n'])
    cols = [tuple((x % 256)//step*step for x in r[3*i:3*i+3]) for i in range(s['n'])]
    ims = []
    if s['all']:        # every colour occurs, the last ones in the last image only
        for part in (cols[:1 + 3*len(cols)//4], cols[::-1]):
            im = Image.new('RGB', (24, 11))
            im.putdata([part[i % len(part)] for i in range(24*11)])
            ims.append(im)
        return ims
    for k, (w, h) in enumerate(s['sizes']):
        im = Image.new('RGB', (w, h))
        im.putdata([cols[x % len(cols)] for x in rnd(s['seed']*7 + k, w*h)])
        ims.append(im)
    return ims


def check_mapped(im, out, tol, what):
    same((out.mode, out.size), ('P', im.size), what + ': mode and size')
    same(out.info.get('transparency'), out.getpixel((0, 0)), what + ': upper-left colour is transparent')
    for i, (p, q) in enumerate(zip(im.getdata(), out.convert('RGB').getdata())):
        expect(max(abs(a - b) for a, b in zip(p, q)) <= tol, what + ': pixel %d is %r not %r', i, q, p)


@R.facet(PAL, n=250)
def shared_palette(s, cx):
    """One palette for several frames"""
    ims = color_images(s)
    before = [snap(i) for i in ims]
    count = {}
    for im in ims:
        for c in im.getdata():
            count[c] = count.get(c, 0) + 1
    cx.nt(len(ims) > 1 and len(count) > 3)
    cx.label('too many colours', len(count) > 256)
    pal = Builder.make_palette(ims)
    same(pal.mode, 'P', 'palette mode')
    unchanged(ims, before, 'palette')
    flat = pal.getpalette()
    entries = {tuple(flat[i:i+3]) for i in range(0, len(flat), 3)}
    kept = sorted(count.values(), reverse=True)[:256]
    for c, n in count.items():
        if len(count) <= 256 or n > kept[-1]:
            expect(c in entries, 'colour %r is in the palette', c)
    psnap = snap(pal)
    for name, fn in (('anim', anim.rgb_to_transparent), ('imagehelp', imagehelp.rgb_to_transparent)):
        for im in ims:
            out = fn(im, palette_image=pal)
            if len(count) <= 256:
                check_mapped(im, out, 0 if s['exact'] else 11, name)
            else:
                same((out.mode, out.size), ('P', im.size), name)
                same(out.info.get('transparency'), out.getpixel((0, 0)), name + ': upper-left colour is transparent')
        unchanged(ims, before, name)
        same(snap(pal), psnap, 'palette image')


@R.facet(st.tuples(PAL, st.sampled_from([256, 256, 128, 17, 4])).map(list), n=250)
def own_palette(v, cx):
    s, colors = v
    im = color_images(s)[0]
    used = len(set(im.getdata()))
    cx.nt(used > 3)
    before = [snap(im)]
    out = anim.rgb_to_transparent(im, colors=colors) if colors != 256 else anim.rgb_to_transparent(im)
    unchanged([im], before, 'transparent')
    rgba = im.convert('RGBA')
    rgba.putalpha(128)
    rb = [snap(rgba)]
    out2 = imagehelp.rgba_to_transparent(rgba, colors=colors) if colors != 256 else imagehelp.rgba_to_transparent(rgba)
    unchanged([rgba], rb, 'rgba transparent')
    for name, o in (('rgb', out), ('rgba', out2)):
        cx.label('fits', used <= colors - 1)
        expect(len(set(o.getdata())) <= colors - 1, name + ': one colour is spared')
        if used <= colors - 1:
            check_mapped(im, o, 0, name)
        else:
            same((o.mode, o.size), ('P', im.size), name)
            same(o.info.get('transparency'), o.getpixel((0, 0)), name + ': upper-left colour is transparent')
    raises(AssertionError, lambda: anim.rgb_to_transparent(rgba), 'mode is checked')
    raises(AssertionError, lambda: imagehelp.rgba_to_transparent(im), 'mode is checked')


@R.facet(st.tuples(SIZE, st.lists(IMG, min_size=1, max_size=4), st.sampled_from(['RGBA', 'RGB']), st.booleans(),
                   st.booleans()).map(list), n=150)
def saving(v, cx):
    """Preparing frames for output leaves them as they were"""
    size, specs, mode, own, autocrop = v
    ims = [image(dict(s, size=size), mode) for s in specs]
    if size[0] < 2 or size[1] < 2:
        return
    cx.nt(len(ims) > 1)
    b = Builder(Image.new('RGBA', (5, 5)), Transform(), None)
    b.images = list(ims) if own else [Image.new('RGBA', (8, 8), 'red')]
    before = [snap(i) for i in ims]
    import os
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        quiet(b.save_animation, os.path.join(d, 'out.gif'), images=None if own else ims, autocrop=autocrop)
    unchanged(ims, before, 'saving')
    same(len(b.images), len(ims) if own else 1, 'frames of the builder')


BIG = st.tuples(st.integers(30, 140), st.integers(30, 140)).map(list)


@R.facet(st.tuples(BIG, st.lists(IMG, min_size=1, max_size=3), FACTOR, BOX, st.booleans(),
                   st.sampled_from(['RGBA', 'RGB'])).map(list), n=20)
def big_images(v, cx):
    """Larger frames"""
    size, specs, f, box, own, mode = v
    scaling([size, specs, f, box, own, mode], cx)
    im = specs[0]
    layers([dict(im, size=size), [10, 20, 30], True, 100], cx)


@R.facet(st.tuples(SIZE, st.lists(IMG, min_size=2, max_size=4), st.integers(7, 40), st.sampled_from(['RGBA', 'RGB', 'L']),
                   st.integers(0, 1000), st.booleans()).map(list), n=40)
def many_images(v, cx):
    """The common box of many frames"""
    size, specs, n, mode, order, own = v
    max_box([size, [dict(specs[i % len(specs)], seed=specs[i % len(specs)]['seed'] + i) for i in range(n)], mode, order, own], cx)


@R.facet(st.tuples(IMG, PAL, SIZE, COLOR, BOX, st.integers(0, 2)).map(list), n=120)
def asked_again(v, cx):
    """Results belong to the caller: painting on them changes neither the input nor later results"""
    s, pal, size, color, box, at = v
    im = image(s)
    rgba_im = image(s, 'RGBA')
    cols = color_images(pal)
    c = COLORS[color] if isinstance(color, str) else tuple(color)
    bb = (box[0], box[1], box[0] + box[2], box[1] + box[3]) if box else None
    b = Builder(Image.new('RGBA', (5, 5)), Transform(), None)
    b.images = [im]
    palette = Builder.make_palette(cols)
    inputs = [im, rgba_im, palette] + cols
    before = [snap(i) for i in inputs]
    asks = [lambda: single(rgba_im, c), lambda: single(rgba_im), lambda: getalpha(rgba_im), lambda: composed(rgba_im, c),
            lambda: composed(rgba_im), lambda: Builder.resize_for_gif(im, *size), lambda: Builder.resize_for_gif(im, *im.size),
            lambda: Builder.make_palette(cols), lambda: anim.rgb_to_transparent(cols[0]),
            lambda: anim.rgb_to_transparent(cols[0], palette_image=palette),
            lambda: imagehelp.rgb_to_transparent(cols[0], palette_image=palette)]
    if im.size[0] > 1 and im.size[1] > 1:
        asks.append(lambda: b.scaled(2)[0])
        asks.append(lambda: b.scaled(1.5, images=[im])[0])
    if bb:
        asks.append(lambda: b.scaled(1, bb)[0])
    cx.nt(s['style'] in ('noise', 'sparse', 'binary'))
    want = []
    for rnd in range(2):
        for n, fn in enumerate(asks):
            out = fn()
            if rnd == 0:
                want.append(snap(out))
            else:
                same(snap(out) == want[n], True, 'result %d asked again' % n)
            w, h = out.size
            out.putpixel((0, 0) if at == 0 else (w-1, h-1), (out.getpixel((0, 0)) + 1) % 256 if len(out.getbands()) == 1 else (7,)*len(out.getbands()))
            if at == 2:
                out.paste(0, (0, 0, w, h))
            if out.mode == 'P':
                out.putpalette([5]*768)
            out.info['transparency'] = 99
        unchanged(inputs, before, 'painting on results')
