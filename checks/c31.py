"""C31: frame builders produce one correct frame per step"""
import contextlib
import io
from hypothesis import strategies as st
from PIL import Image
from x7.geom.geom import Point
from x7.geom.drawing import DrawingContext
from x7.geom.anim import (
    AnimationCircular, AnimationGeneric, AnimationHolder, AnimationLinear, AnimationLinearFunc, AnimationSinusoidal,
    Animation, Builder,
)
from x7.geom.anim_simple import SimpleAnimation
from x7.geom.transform import Transform
from x7.geom.model import ElemCurve, GroupBuilder, Group
from x7.geom.colors import PenBrush, PensByShape
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, raises, same, fail

R = Registry('C31', 'Small nested models with several animated points (linear, eased, sinusoidal, circular, generic) over '
             'coloured and noisy base images of several modes under arbitrary drawing transforms, drafts and production, '
             'built with 1..6 steps, as a whole, singly, repeatedly and out of order; simple animations with arbitrary '
             'image sizes, drawing boxes, step counts and time ranges in either direction. Non-trivial: at least two '
             'frames that differ.')


def base_image(size, mode, seed):
    """Deterministic, not uniform"""
    w, h = size
    im = Image.new('RGBA', (w, h), 'white')
    im.putdata([((x*7 + seed*13) % 256, (y*11 + seed*29) % 256, (x*y + seed) % 256,
                 255 if (x+y+seed) % 3 else (seed*37) % 256) for y in range(h) for x in range(w)])
    return im if mode == 'RGBA' else im.convert(mode)


CP = st.tuples(st.tuples(gen.fl(-40, 40), gen.fl(-40, 40)).map(list), st.tuples(gen.small(20), gen.small(20)).map(list),
               st.tuples(gen.small(20), gen.small(20)).map(list), gen.kind()).map(list)
ANIM = st.tuples(st.sampled_from(['linear', 'ramp', 'sinus', 'circular', 'generic', 'none']),
                 st.tuples(gen.fl(-40, 40), gen.fl(-40, 40)).map(list), st.sampled_from([1, 2, 0.5])).map(list)
COLOR = st.sampled_from(['black', 'red', 'green', 'blue', 'yellow', '#102030', [10, 200, 30], [10, 20, 200, 128]])
ELEM = st.fixed_dictionaries(dict(
    cps=st.lists(CP, min_size=2, max_size=3), closed=st.booleans(), pen=COLOR, brush=gen.one_of(st.none(), COLOR),
    width=st.sampled_from([0, 1, 3, -2]), anim=ANIM,
    xf=gen.one_of(st.just([]), st.tuples(st.just('t'), gen.small(10), gen.small(10)).map(lambda v: [list(v)]))))
WORLD = st.fixed_dictionaries(dict(
    size=st.tuples(st.integers(20, 70), st.integers(20, 70)).map(list), mode=st.sampled_from(['RGBA', 'RGBA', 'RGB', 'L']),
    seed=st.integers(0, 50), draft=st.booleans(), elems=st.lists(ELEM, min_size=1, max_size=3),
    matrix=st.tuples(st.sampled_from([1, -1, 0.5]), st.sampled_from([1, -1, 0.75]), gen.angle(), gen.small(20),
                     gen.small(20)).map(list), builder=st.booleans()))


def anim_of(a, p):
    k, g, f = a
    if k == 'linear':
        return AnimationLinear(p, Point(*g))
    if k == 'ramp':
        return AnimationLinearFunc(p, Point(*g), Animation.ramp_up())
    if k == 'sinus':
        return AnimationSinusoidal(p, Point(*g), f)
    if k == 'circular':
        return AnimationCircular(p, 10, f)
    if k == 'generic':
        return AnimationGeneric(p, lambda t, orig, _p: (orig.x + t*g[0], orig.y - t*g[1]))
    return None


def make_model(w):
    """(model, animations)"""
    gb = GroupBuilder('g', PensByShape())
    anims = AnimationHolder()
    for i, e in enumerate(w['elems']):
        cps = mk.cps(e['cps'])
        p = cps[0].c
        a = anim_of(e['anim'], p)
        if a:
            anims.add(a)
        brush = e['brush'] if e['closed'] else None
        el = ElemCurve('e%d' % i, mk.penbrush([[e['pen'], e['width']], brush]), cps, closed=e['closed'],
                       xform=mk.xform(e['xf']))
        gb.add('e%d' % i, el)
    return (gb if w['builder'] else gb.the_group), anims


def matrix_of(w):
    sx, sy, ang, tx, ty = w['matrix']
    return mk.xform([['s', sx, sy], ['r', ang], ['t', w['size'][0]/2 + tx, w['size'][1]/2 + ty]])


def picture(w, t):
    """Expected frame at time t, drawn step by step with fresh objects (the animations themselves are C27's concern)"""
    model, anims = make_model(w)
    anims.update(t)
    dc = DrawingContext(base_image(w['size'], w['mode'], w['seed']), matrix_of(w), prod=not w['draft'])
    model.draw(dc)
    return dc.image()


def same_image(got, want, what):
    same((got.mode, got.size), (want.mode, want.size), '%s: mode and size' % what)
    a, b = got.tobytes(), want.tobytes()
    if a != b:
        diff = [i//4 for i in range(0, len(a), 4) if a[i:i+4] != b[i:i+4]]
        w = got.size[0]
        i = diff[0]
        fail('%s: %d pixels differ, first (%d, %d): %r, expected %r', what, len(diff), i % w, i // w,
             got.getpixel((i % w, i // w)), want.getpixel((i % w, i // w)))


@R.facet(st.tuples(WORLD, st.integers(1, 6), st.lists(st.tuples(st.sampled_from(['all', 'one', 'again', 'replaced']),
                                                             st.integers(0, 5), st.integers(1, 6)).map(list),
                                                    min_size=1, max_size=4)).map(list), n=350)
def frames(v, cx):
    w, steps, calls = v
    base = base_image(w['size'], w['mode'], w['seed'])
    raw = base.tobytes()
    model, anims = make_model(w)
    matrix = matrix_of(w)
    m6 = tuple(matrix.as_6tuple())
    if any(e['anim'][0] != 'none' for e in w['elems']):
        b = Builder(base, matrix, model, anims, draft=w['draft'])
    else:
        b = Builder(base, matrix, model, draft=w['draft'])
    same(b.images, [], 'no frames yet')
    expected = {}

    def want(t):
        if t not in expected:
            expected[t] = picture(w, t)
        return expected[t]

    kept = []
    for op, k, n in [['all', 0, steps]] + calls:
        if op == 'one':
            got = b.build_one(k/n, k)
            same_image(got, want(k/n), 'single frame at %r' % (k/n))
            kept.append((got, got.tobytes()))
            continue
        if op == 'replaced':
            # the frames kept belong to the caller, who may have made others of them
            b.images = [im.resize((im.size[0] + 3*k + 1, im.size[1]//2 + n)) for im in b.images[k//2:]]
            if n % 2:
                b.images = [im.convert('L') for im in b.images]
            cx.label('frames replaced')
        n = steps if op == 'again' else n
        images = b.build_all(n)
        same(len(images), n, 'number of frames')
        expect(b.images == images, 'frames are kept')
        expect(len({id(im) for im in images}) == n, 'frames are separate images')
        for i, im in enumerate(images):
            same_image(im, want(i/n), 'frame %d of %d' % (i, n))
            kept.append((im, im.tobytes()))
    same(base.tobytes(), raw, 'base image')
    same(tuple(matrix.as_6tuple()), m6, 'drawing transform')
    for im, data in kept:
        expect(im.tobytes() == data, 'a frame changed after it was built')
    first = b.build_one()
    same_image(first, want(0), 'frame at the default time')
    cx.nt(len({im.tobytes() for im in expected.values()}) > 1)
    cx.label('draft', w['draft'])
    cx.label('base ' + w['mode'])


BOX = st.tuples(gen.fl(-200, 100), gen.fl(-200, 100), gen.fl(5, 300), gen.fl(5, 300)).map(
    lambda v: [v[0], v[1], round(v[0]+v[2], 6), round(v[1]+v[3], 6)])
SPOT = st.tuples(gen.fl(0.1, 0.9), gen.fl(0.1, 0.9)).map(list)
COLORS = ['red', 'green', 'blue', 'yellow', 'black', 'white', 'cyan']
RGB = {'red': (255, 0, 0), 'green': (0, 128, 0), 'blue': (0, 0, 255), 'yellow': (255, 255, 0), 'black': (0, 0, 0),
       'white': (255, 255, 255), 'cyan': (0, 255, 255), 'grey': (128, 128, 128)}


@R.facet(st.tuples(st.tuples(st.integers(16, 80), st.integers(16, 80)).map(list), BOX, st.integers(1, 7), gen.fl(-3, 3),
                   gen.fl(-3, 3), st.lists(SPOT, min_size=1, max_size=4), st.booleans()).map(list), n=300)
def simple(v, cx):
    size, box, steps, lo, hi, spots, extra = v
    if lo == hi:
        hi = lo + 1
    calls = []

    def mark(dc, i):
        fx, fy = spots[i % len(spots)]
        x, y = box[0] + fx*(box[2]-box[0]), box[1] + fy*(box[3]-box[1])
        rx, ry = 2.6*(box[2]-box[0])/size[0], 2.6*(box[3]-box[1])/size[1]
        dc.polygon([(x-rx, y-ry), (x+rx, y-ry), (x+rx, y+ry), (x-rx, y+ry)], fill=COLORS[i % len(COLORS)],
                   outline=COLORS[i % len(COLORS)])

    def draw(dc, t):
        calls.append((dc, t))
        mark(dc, len(calls)-1)

    sa = SimpleAnimation(draw, image_size=tuple(size), draw_bbox=tuple(box), steps=steps, t_low=lo, t_high=hi)
    same(sa.images, [], 'no frames yet')
    with contextlib.redirect_stdout(io.StringIO()):
        sa.animate()
    cx.nt(steps > 1 and len(spots) > 1)
    cx.label('not centered', abs(box[1]+box[3]) > 1e-3*abs(box[3]-box[1]))
    same(len(calls), steps+1, 'number of times the drawing function was called')
    same(len(sa.images), steps+1, 'number of frames')
    same(calls[0][1], lo, 'first time')
    near(calls[-1][1], hi, 1e-12*(1+abs(lo)+abs(hi)), 'last time')
    expect(len({id(c[0]) for c in calls}) == steps+1, 'every frame has its own context')
    expect(len({id(im) for im in sa.images}) == steps+1, 'frames are separate images')
    images = list(sa.images)
    if extra:
        with sa.next_step() as dc:
            calls.append((dc, lo + (steps+1)*(hi-lo)/steps))
            mark(dc, steps+1)
        same(len(sa.images), steps+2, 'frames after one more step')
        expect(all(a is b for a, b in zip(images, sa.images)), 'earlier frames are kept in order')
        images = list(sa.images)
    # running again gives a complete set of frames again, which earlier frames do not influence
    data = [im.tobytes() for im in images]
    done, calls[:] = list(calls), []
    with contextlib.redirect_stdout(io.StringIO()):
        sa.animate()
    same(len(calls), steps+1, 'number of times the drawing function was called on the second run')
    same([t for _dc, t in calls], [t for _dc, t in done[:steps+1]], 'times of the second run')
    expect(len(sa.images) >= steps+1, 'frames of the second run')
    for i, (a, b) in enumerate(zip(sa.images[-steps-1:], data)):
        expect(a.tobytes() == b, 'frame %d of the second run', i)
    same([im.tobytes() for im in images], data, 'frames of the first run')
    calls[:] = done
    W, H = size
    for i, ((dc, t), im) in enumerate(zip(calls, images)):
        near(t, lo + i*(hi-lo)/steps, 1e-12*(1+abs(lo)+abs(hi))*4, 'time of step %d' % i)
        tol = 1e-9*(1 + max(map(abs, box)) * max(W/(box[2]-box[0]), H/(box[3]-box[1])))
        near_xy(dc.scale_pt(box[0], box[1]), (0, H), tol, 'lower left of the drawing box')
        near_xy(dc.scale_pt(box[2], box[3]), (W, 0), tol, 'upper right of the drawing box')
        near_xy(dc.scale_pt((box[0]+box[2])/2, (box[1]+box[3])/2), (W/2, H/2), tol, 'center of the drawing box')
        same(im.size, (W, H), 'image size')
        fx, fy = spots[i % len(spots)]
        px, py = fx*W, (1-fy)*H
        data = im.load()
        want = RGB[COLORS[i % len(COLORS)]]
        same(data[int(px), int(py)][:3], want, 'frame %d shows its mark' % i)
        for x in range(W):
            for y in range(H):
                if max(abs(x-px), abs(y-py)) > 5:
                    if data[x, y] != (128, 128, 128, 255):
                        fail('frame %d: pixel (%d, %d) far from its mark is %r', i, x, y, data[x, y])


@R.facet(st.tuples(st.tuples(*[st.booleans()]*5).map(list), gen.fl(-3, 3)).map(list), n=10, thorough=60)
def simple_defaults(v, cx):
    """What is not given: 500x500 images of (-250, -250)..(250, 250), 20 steps from 0 to 1"""
    omit, base = v
    kw = dict(image_size=(40, 30), draw_bbox=(-5, -2, 7, 11), steps=3, t_low=base, t_high=base+2)
    defaults = dict(image_size=(500, 500), draw_bbox=(-250, -250, 250, 250), steps=20, t_low=0, t_high=1)
    for (k, d), o in zip(defaults.items(), omit):
        if o:
            del kw[k]
    want = dict(defaults, **kw)
    if want['t_low'] == want['t_high']:
        return
    calls = []
    sa = SimpleAnimation(lambda dc, t: calls.append((dc, t)), **kw)
    with contextlib.redirect_stdout(io.StringIO()):
        sa.animate()
    cx.nt(any(omit))
    n, lo, hi = want['steps'], want['t_low'], want['t_high']
    same((len(calls), len(sa.images)), (n+1, n+1), 'frames')
    box, (w, h) = want['draw_bbox'], want['image_size']
    for i, ((dc, t), im) in enumerate(zip(calls, sa.images)):
        near(t, lo + i*(hi-lo)/n, 1e-12*20, 'time of step %d' % i)
        same(im.size, (w, h), 'image size')
        near_xy(dc.scale_pt(box[0], box[1]), (0, h), 1e-6, 'lower left')
        near_xy(dc.scale_pt(box[2], box[3]), (w, 0), 1e-6, 'upper right')
        same(im.getcolors(), [(w*h, (128, 128, 128, 255))], 'empty frame')


@R.facet(st.tuples(WORLD, st.integers(2, 5), st.integers(2, 5)).map(list), n=80)
def two_builders(v, cx):
    """Builders over the same base image do not influence each other"""
    w, n1, n2 = v
    base = base_image(w['size'], w['mode'], w['seed'])
    model1, anims1 = make_model(w)
    w2 = dict(w, draft=not w['draft'], elems=w['elems'][::-1])
    model2, anims2 = make_model(w2)
    matrix = matrix_of(w)
    b1 = Builder(base, matrix, model1, anims1, draft=w['draft'])
    b2 = Builder(base, matrix, model2, anims2, draft=w2['draft'])
    got1, got2 = [], []
    for i in range(max(n1, n2)):
        if i < n1:
            got1.append(b1.build_one(i/n1, i))
        if i < n2:
            got2.append(b2.build_one(i/n2, i))
    for i, im in enumerate(got1):
        same_image(im, picture(w, i/n1), 'first builder, frame %d' % i)
    for i, im in enumerate(got2):
        same_image(im, picture(w2, i/n2), 'second builder, frame %d' % i)
    cx.nt(len({im.tobytes() for im in got1}) > 1)


@R.facet(st.tuples(WORLD, st.integers(12, 40), st.lists(st.tuples(st.sampled_from(['one', 'again']), st.integers(0, 30),
                                                                   st.integers(1, 30)).map(list), max_size=2)).map(list), n=10, thorough=200)
def many_frames(v, cx):
    """Many frames"""
    frames(v, cx)


@R.facet(st.tuples(st.tuples(st.integers(16, 30), st.integers(16, 30)).map(list), BOX, st.integers(12, 60), gen.fl(-3, 3),
                   gen.fl(-3, 3), st.lists(SPOT, min_size=1, max_size=4), st.booleans()).map(list), n=10, thorough=200)
def many_steps(v, cx):
    """Many steps"""
    simple(v, cx)


@R.facet(st.tuples(st.integers(90, 400), gen.fl(-1000, 1000), gen.fl(-1000, 1000), st.booleans()).map(list), n=6, thorough=60)
def hundreds(v, cx):
    """Hundreds of (tiny) frames: the time of each one"""
    n, gx, gy, builder = v
    p = Point(1, 2)
    times = []
    anims = AnimationHolder()
    anims.add(AnimationLinear(p, Point(gx, gy)))
    anims.add(AnimationGeneric(Point(0, 0), lambda t, _orig, _p: (times.append((t, p.xy())), (0, 0))[1]))
    model = GroupBuilder('g', PensByShape()) if builder else Group('g', PenBrush('black'))
    b = Builder(Image.new('RGBA', (3, 2)), Transform(), model, anims)
    b.build_all(n)
    cx.nt()
    same(len(b.images), n, 'frames')
    same(len(times), n, 'updates')
    for i, (t, xy) in enumerate(times):
        near(t, i/n, 1e-12, 'time of frame %d of %d' % (i, n))
        near_xy(xy, (1 + (gx-1)*i/n, 2 + (gy-2)*i/n), 1e-8, 'point in frame %d' % i)


@R.facet(st.tuples(WORLD, st.integers(1, 4), st.sampled_from(['shown', 'hidden', 'empty', 'outside']),
                   st.lists(st.tuples(st.sampled_from(['all', 'one']), st.integers(1, 4)).map(list), min_size=1, max_size=3)).map(list), n=100)
def spoilt(v, cx):
    """Frames belong to the caller: painting on them shows neither in the base image nor in other frames"""
    w, steps, what, calls = v
    w = dict(w, builder=False)
    if what == 'outside':
        w['matrix'] = w['matrix'][:3] + [5000, 5000]
    base = base_image(w['size'], w['mode'], w['seed'])
    raw = base.tobytes()

    def model_of():
        model, anims = make_model(w)
        if what == 'hidden':
            model.hidden = True
        elif what == 'empty':
            model.elems.clear()
        return model, anims

    def want(t):
        model, anims = model_of()
        anims.update(t)
        dc = DrawingContext(base_image(w['size'], w['mode'], w['seed']), matrix_of(w), prod=not w['draft'])
        model.draw(dc)
        return dc.image()
    model, anims = model_of()
    b = Builder(base, matrix_of(w), model, anims, draft=w['draft'])
    for op, n in [['all', steps]] + calls:
        if op == 'one':
            ims, ts = [b.build_one(i/n, i) for i in range(n)], [i/n for i in range(n)]
        else:
            ims, ts = list(b.build_all(n)), [i/n for i in range(n)]
        for i, (im, t) in enumerate(zip(ims, ts)):
            same_image(im, want(t), '%s %d after painting on the earlier ones' % (op, i))
            im.paste((1, 2, 3, 4), (0, 0, im.size[0], im.size[1]//2 + 1))
            im.putpixel((im.size[0]-1, im.size[1]-1), (9, 8, 7, 6))
        expect(base.tobytes() == raw, 'base image')
    cx.nt(steps > 1)
    cx.label(what)
