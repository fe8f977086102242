"""Random texts for the code -> specification direction: lines of real maps and of the grammar,
put together at random and then damaged at random.  Everything follows from the seed."""
import json, os, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORPUS = json.load(open(os.path.join(HERE, 'corpus', 'lines.json')))
SECTIONS = ['General', 'Editor', 'Metadata', 'Difficulty', 'Events', 'TimingPoints', 'Colours', 'HitObjects']
EXTRA = {
    'General': ['EditorBookmarks: 1,2', 'EditorDistanceSpacing: 1.5', 'AudioHash: h', 'CountdownOffset: 3', 'OverlayPosition: Above', 'AlwaysShowPlayfield: 1', 'UseSkinSprites: 0',
                'SkinPreference:x y', 'EpilepsyWarning: 1', 'SamplesMatchPlaybackRate: 1', 'SpecialStyle: 0', 'Mode: 3', 'Mode: 1', 'SampleSet: Drum', 'Countdown: 2', 'StoryFireInFront: 1'],
    'Editor': ['CurrentTime: 5', 'Bookmarks: ', 'TimelineZoom:2'],
    'Metadata': ['BeatmapID:0', 'BeatmapSetID:-1', 'Tags:a b  c', 'Title:a:b', 'Source:'],
    'Difficulty': ['ApproachRate:a', 'CircleSize: 4'],
    'Events': ['0,0,bg.jpg', '1,5,"v.avi"', 'Video,5,"v i.avi",1,2', '3,100,1,2,3', '4,3,1,s.png,1,2', '5,1,0,an.png', '6,12,1,s.wav,40', 'Sample,13,2,"s.wav",50', 'Break,9,10',
               'Animation,Overlay,Custom,"a n.png",1,2,3,4.5,LoopOnce', ' T,HitSoundSoftClap3,1,2,7', '  L,5,6', ' P,0,1,,A', ' C,1,2,3,1,2,3,4,5,6', '_V,0,,,1,2,3,4', ' M,0,1,2,3,4,5', ' R,34,1,,0.5,1,2'],
    'TimingPoints': ['10,500', '10,500,4,1,0,100', '-20,-50,3,2,5,7,0,9', '100.5,300,4,0,0,0,1,15'],
    'Colours': ['Combo2 : 1,2,3', 'SliderTrackOverride : 4,5,6', 'Combo10:0,0,0'],
    'HitObjects': ['1,2,30,12,0,40,1:2:3:4:a b.wav', '1,2,30,128,0,40:1:2:3:4:', '1,2,3,5,14', '256,192,5,21,2,0:0:0', '1,2,3,2,0,C|1:2,1,5', '3,4,5,6,1,P|1:1|2:2,3,1.5,1|2|3|4,0:1|1:2|2:3|3:0'],
    'Variables': ['$a=1', '$b=2,3', '$ab=10', '$x=0', '$e=', '$c=F,0'],
}
EDGE = ['', '0', '-1', '1', '255', '256', '-2147483648', '2147483647', '2147483624', '2147483648', '4294967295', '1.5', '-0.50', 'x', '$a', '$ab', ' ', '24', '-24', 'NaN', '1e3', '+7', '007', '100', '101', '//', '"']
CHARS = list(' ,:|"_-+.$=[]/0123456789aFMLTx\t\n\n') + ['\r\n', 'é', '日', '\ufeff', '\u00a0']


def lines_of(r, sec, osb):
    pool = []
    if osb and 'osb:' + sec in CORPUS:
        pool = CORPUS['osb:' + sec]
    elif sec in CORPUS:
        pool = CORPUS[sec]
    return r.choice(pool) if pool and r.random() < .6 else r.choice(EXTRA.get(sec, pool or ['']))


def body(r, sec, n, osb=False):
    out = []
    for _ in range(n):
        l = lines_of(r, sec, osb)
        if sec == 'Events' and r.random() < .35 and out:
            d = r.randint(0, 4)
            l = r.choice(' _') * d + l.lstrip(' _') if d else l
        if r.random() < .15:
            out.append(r.choice(['', ' ', '//c']) if sec == 'Events' else '')
        out.append(l)
    if sec in ('General', 'Editor', 'Metadata', 'Difficulty') and r.random() < .9:
        seen, o = set(), []
        for l in out:
            k = l.split(':')[0]
            if k in seen and l:
                continue
            seen.add(k)
            o.append(l)
        out = o
    return out


def damage(r, t):
    for _ in range(r.choice([0, 0, 0, 1, 1, 1, 2, 3])):
        k = r.randint(0, 8)
        if not t:
            break
        i = r.randrange(len(t))
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + r.choice(CHARS) + t[i:]
        elif k == 2:
            t = t[:i] + r.choice(CHARS) + t[i + 1:]
        elif k == 3:
            ls = t.split('\n')
            j = r.randrange(len(ls))
            ls.insert(r.randrange(len(ls) + 1), ls[j])
            t = '\n'.join(ls)
        elif k == 4:
            ls = t.split('\n')
            ls.pop(r.randrange(len(ls)))
            t = '\n'.join(ls)
        elif k in (5, 6):
            # one field
            ls = t.split('\n')
            j = r.randrange(len(ls))
            s = r.choice([x for x in ',:|=' if x in ls[j]] or [','])
            f = ls[j].split(s)
            q = r.randrange(len(f))
            w = r.random()
            if w < .6:
                f[q] = r.choice(EDGE)
            elif w < .8:
                f.pop(q)
            else:
                f.insert(q, r.choice(EDGE))
            ls[j] = s.join(f)
            t = '\n'.join(ls)
        elif k == 7:
            ls = t.split('\n')
            a, b = r.randrange(len(ls)), r.randrange(len(ls))
            ls[a], ls[b] = ls[b], ls[a]
            t = '\n'.join(ls)
        else:
            t = t[:i] if r.random() < .3 else t.replace('\n', '\r\n')
    return t


def text(r, kind):
    if kind in SECTIONS:
        t = '\n'.join(body(r, kind, r.randint(1, 5))) + r.choice(['', '', '\n'])
        return damage(r, t), r.choice([3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 14, 14])
    if kind == 'osb':
        t = ''
        secs = ['Variables', 'Events'] if r.random() < .8 else r.choice([['Events'], ['Variables'], ['Events', 'Variables']])
        for s in secs:
            t += '[%s]\n' % s + ''.join(l + '\n' for l in (['Sprite,Pass,Centre,"a.png",320,240'] if s == 'Events' else []) + body(r, s, r.randint(1, 4), True)) + r.choice(['', '\n'])
        return damage(r, t), 14
    v = r.choice([3, 4, 5, 7, 9, 10, 11, 12, 13, 14, 14, 14])
    secs = r.sample(SECTIONS, r.randint(0, 4))
    if r.random() < .6:
        secs.sort(key=SECTIONS.index)
    t = r.choice(['', '', '', '\n', '//c\n', '\ufeff']) + 'osu file format v%d\n' % v + r.choice(['', '\n', '//x\n'])
    for s in secs:
        t += '[%s]\n' % s + ''.join(l + '\n' for l in body(r, s, r.randint(0, 3))) + r.choice(['', '\n'])
    return damage(r, t), 14


def write(path, seed, n, kinds, pv=None):
    r = random.Random(seed)
    m = 0
    with open(path, 'w') as f:
        while m < n:
            k = r.choice(kinds)
            t, v = text(r, k)
            if len(t) > 900:
                continue
            p = pv or sorted({v, 14, r.randint(3, 14)})
            f.write(json.dumps(dict(k=k, t=t, v=v, pv=p), ensure_ascii=True) + '\n')
            m += 1
    return n
