"""C18: files and paths"""
import os
import pathlib
from .common import *

TITLE = 'Saving writes the right bytes to the right file and nothing else'
RULE = ('Random histories over a scratch directory: build or create documents, write files by hand, load them (as text path, '
        'path object or relative path), save to the remembered path, to a given path or after assigning another path, in drawn '
        'encodings, load again, change or remove files behind the back of the program, load missing paths, save without any path or to a path that can be no file. After every step all files and the remembered paths '
        'are compared with a model of the directory. Non-trivial: at least one save and one load of the same file; distinct by '
        'history.')
ASSUMPTIONS = [TRUST, DOMAIN, 'The default encoding is UTF-8 (the check sets the locale)',
               'Texts are restricted to what the drawn encoding can represent']
ENCODINGS = ('utf-8', None, 'utf-16', 'latin-1', 'utf-8-sig', 'cp1252', 'utf-32', 'utf-16-le')


def encodable(m, enc):
    try:
        sx.render(m.tree('w')).encode(enc or 'utf-8')
        return True
    except UnicodeEncodeError:
        return False


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if not os.path.exists(p):
                continue
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def histories(g, ctx):
    start(g)
    d = ctx.scratch()
    os.makedirs(f'{d}/sub dir/ü', exist_ok=True)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        return _history(g, d)
    finally:
        os.chdir(cwd)


def _history(g, d):
    fs = {}            # relative name -> bytes
    meta = {}          # relative name -> (model, encoding)
    objs = []          # [object, model, expected filePath]
    log = []
    loaded = saved = False
    names = ['a', 'b.txt', 'sub dir/c', 'sub dir/ü/d Ω', 'e.kicad', 'sub dir/a', '~', '$HOME', ' x ', '.kicad_pcb', '%41.tmp',
             'a.tmp', 'a.bak', 'a~']
    if g.chance(0.6):
        names = names[:2 + g.below(5)]
    if dictionary.NEW_TEXTS and g.chance(0.5):
        for _ in range(3):
            t = dictionary.text(g, True).replace('/', '_').replace('\n', '')[:40]
            names.append((t if t not in ('', '.', '..', 'sub dir') else 'x') if g.chance(0.5) else 'n' + t)
    links = {}         # link name -> name of the file it points to
    if g.chance(0.3):
        links = {'link': 'a', 'sub dir/link': 'b.txt'}
        os.symlink('a', os.path.join(d, 'link'))
        os.symlink(os.path.join(d, 'b.txt'), os.path.join(d, 'sub dir/link'))
        names = names + list(links)

    def spell(rel):
        c = g.below(4)
        alias = [a for a, b in links.items() if b == rel]
        if alias and g.chance(0.3):
            rel = alias[0]
        full = os.path.join(d, rel)
        return (full, pathlib.Path(full), rel, os.path.join('.', rel))[c]

    def real(rel):
        return links.get(rel, rel)

    def store(obj, m, path, rel, enc, arg):
        """Save and update the model"""
        rel = real(rel)
        text = ops.to_sexpr(obj)
        ops.check_tree(ops.file_tree(m, text), m.tree('w'), 'what is saved differs from the object', text)
        c = g.below(3)
        args = [] if arg is None and (c or enc is None) else [arg]
        if c == 0 and enc is not None:
            args.append(enc)
        kw = {'encoding': enc} if enc and c else {}
        if c == 2 and args:
            kw['filepath'] = args.pop()
        ops.guarded('saving', obj.to_file, *args, **kw)
        fs[rel] = text.encode(enc or 'utf-8')
        meta[rel] = (m, enc, True)

    for _ in range(4 + g.count(0, 20, 0.9)):
        c = g.below(9)
        if c == 8 and fs:
            # somebody else changes a file, or takes it away, behind the back of the program
            rel = g.pick(sorted(fs))
            if g.chance(0.7):
                k = g.below(len(fs[rel]) + 1)
                data = g.pick((fs[rel][:k] + b'#' + fs[rel][k + 1:], b'x' * len(fs[rel]), fs[rel][:k], fs[rel] + b'\n', b''))
                st = os.stat(os.path.join(d, rel))
                with open(os.path.join(d, rel), 'wb') as f:
                    f.write(data)
                if g.chance(0.5):
                    os.utime(os.path.join(d, rel), ns=(st.st_atime_ns, st.st_mtime_ns))
                fs[rel] = data
                log.append(f'disturb {rel}')
            else:
                os.remove(os.path.join(d, rel))
                del fs[rel]
                log.append(f'remove {rel}')
            meta.pop(rel, None)
        elif c in (0, 1, 8) or (not objs and c > 3):
            doc = specs.document_of(g, specs.DOCUMENTS)
            m = specs.SPECS[doc](g)
            objs.append([ops.make(m), m, None])
            log.append(f'build {doc}')
        elif c == 2:
            doc = specs.document_of(g, specs.DOCUMENTS)
            m = specs.SPECS[doc](g)
            rel, enc = g.pick(names), g.pick(ENCODINGS)
            if not encodable(m, enc):
                enc = 'utf-8'
            data = ops.file_text(m, m.tree('r', g)).encode(enc or 'utf-8')
            with open(os.path.join(d, rel), 'wb') as f:
                f.write(data)
            rel = real(rel)
            fs[rel], meta[rel] = data, (m, enc, False)
            log.append(f'put {rel} {doc} {enc}')
        elif c == 3:
            if meta and g.chance(0.85):
                rel = g.pick(sorted(meta))
                m, enc, reread = meta[rel]
                p = spell(rel)
                cls = ops.cls_of(m)
                if g.chance(0.3):
                    o = ops.guarded('loading', cls.from_file, p, enc)
                elif enc:
                    o = ops.guarded('loading', cls.from_file, filepath=p, encoding=enc)
                else:
                    o = ops.guarded('loading', cls.from_file, p)
                if o.filePath != p and str(o.filePath) != str(p):
                    raise Violation(f'{log}: loaded from {p!r}, but the remembered path is {o.filePath!r}')
                keep = o.filePath
                o.filePath = None
                ops.check_object(o, m, f'{log}: after loading {rel}', reread, text=fs[rel].decode(enc or 'utf-8'))
                o.filePath = keep
                objs.append([o, m, rel])
                loaded = loaded or saved
                log.append(f'load {rel}')
            else:
                p = g.pick((f'{d}/missing', 'missing', d, f'{d}/sub dir', ''))
                cls = model.CLASSES[specs.document_of(g, specs.DOCUMENTS)]
                try:
                    cls.from_file(p)
                except Exception:
                    pass
                else:
                    raise Violation(f'{log}: loading {p!r}, which is no file, succeeded')
                log.append(f'load {p[len(d):] if p.startswith(d) else p} fails')
        elif c == 4 and g.chance(0.15):
            # a given path that can be no file
            o, m, rel = g.pick(objs)
            p = g.pick(('', d, f'{d}/sub dir', 'sub dir', f'{d}/no/such/dir/a', 'none/a', f'{d}/none/'))
            before = o.filePath
            try:
                o.to_file(p, encoding='utf-8')
            except Exception:
                pass
            else:
                raise Violation(f'{log}: saving to {p!r}, which can be no file, succeeded')
            if o.filePath != before or os.path.exists(f'{d}/no') or os.path.exists(f'{d}/none'):
                raise Violation(f'{log}: saving to {p!r}, which can be no file, left a trace')
            log.append(f'save {p[len(d):] if p.startswith(d) else p!r} fails')
        elif c == 4:
            o, m, rel = k = g.pick(objs)
            rel = g.pick(names)
            enc = g.pick(ENCODINGS)
            if not encodable(m, enc):
                enc = 'utf-8'
            before = o.filePath
            store(o, m, None, rel, enc, spell(rel))
            if o.filePath != before:
                raise Violation(f'{log}: saving to the given path {rel!r} changed the remembered path from {before!r} to '
                                f'{o.filePath!r}')
            saved = True
            log.append(f'save {rel} {enc}')
        elif c in (5, 6):
            o, m, rel = g.pick(objs)
            enc = g.pick(ENCODINGS)
            if not encodable(m, enc):
                enc = 'utf-8'
            if rel is None:
                try:
                    o.to_file(**({'encoding': enc} if enc else {}))
                except Exception:
                    pass
                else:
                    raise Violation(f'{log}: saving a document that has no path succeeded')
                log.append('save without path fails')
            else:
                store(o, m, None, rel, enc, None)
                saved = True
                log.append(f'save to remembered {rel} {enc}')
        else:
            k = g.pick(objs)
            rel = g.pick(names)
            k[0].filePath = spell(rel)
            k[2] = rel
            log.append(f'remember {rel}')
        now = snapshot(d)
        for a in links:
            if not os.path.islink(os.path.join(d, a)):
                raise Violation(f'{log}: the link {a!r} was replaced')
            now.pop(a, None)
        if now != fs:
            extra = sorted(set(now) - set(fs))
            gone = sorted(set(fs) - set(now))
            differ = sorted(n for n in now if n in fs and now[n] != fs[n])
            n = differ[0] if differ else None
            raise Violation(f'{log}: files differ from what was saved: unexpected {extra}, missing {gone}, different {differ}',
                            expected=repr(fs[n])[:1500] if n else '', got=repr(now[n])[:1500] if n else '')
    return (tuple(log), tuple(sorted(fs.items()))), loaded and saved, str(log)


STREAMS = [Stream('histories', histories, 12000, 300000)]
