// C09 Derivable signals against the same operations on plain data.
import { words } from '../lib/explore.mjs';

export default {
  id: 'C09',
  rule: 'an item is a shape and a sequence of operations (write, delete, draft program, read, root write) performed on a derivable signal and on a plain mutable copy; after every operation values, reads through properties and drafts, versions (through a computed signal), notifications, immutability of objects read earlier and identity of untouched objects are compared; distinct outcomes are distinct final values and notification logs',
  assumptions: ['data are plain objects, class instances and arrays without cycles', 'a draft of an object that has been replaced is not used any more'],
  async run(ctx) {
    const { B } = ctx;
    const { Derivable, unwrap } = B;
    const T = ctx.thorough;
    class Point {
      x = 1;
      y = 2;
      get len() {
        return this.x + this.y;
      }
      set len(v) {
        this.x = v - this.y;
      }
      move(n) {
        this.x += n;
        return this;
      }
    }
    const S = Symbol('S');
    const hidden = (value) => Object.defineProperty({}, 'h', { value, writable: true, configurable: true, enumerable: false });
    const SHAPES = {
      obj: () => ({ a: 1, b: { x: 1, y: { z: 1 } }, c: { x: 1 } }),
      arr: () => ({ l: [1, { x: 1 }, 2], o: { m: [] } }),
      top: () => [3, 1, { x: 1 }],
      acc: () => ({
        n: 1, f: true, o: { k: 1, y: { z: 1 } },
        get sum() {
          return this.n + (this.o?.k ?? 0);
        },
        get pick() {
          return this.f ? this.o?.k : this.n;
        },
        get w() {
          return this.n;
        },
        set w(v) {
          this.n = v;
        },
        get made() {
          return { v: this.o?.k };
        },
      }),
      ref: () => ({
        o: { k: 1 }, q: { k: 2 },
        get r() {
          return this.o;
        },
        set r(v) {
          this.o = v;
        },
        get deep() {
          return (this.r?.k ?? 0) + (this.q?.k ?? 0);
        },
        get has() {
          return this.m === undefined ? 'no' : `m${this.m}`;
        },
      }),
      via: () => ({
        l: [1, { x: 1 }], o: { k: 1, y: { z: 1 } },
        get a() {
          return this.l;
        },
        set a(v) {
          this.l = v;
        },
        get r() {
          return this.o;
        },
        set r(v) {
          this.o = v;
        },
        get t() {
          return this.r;
        },
        set t(v) {
          this.r = v;
        },
      }),
      ro: () => ({
        o: { k: 1, y: { z: 1 } },
        get g() {
          return this.o;
        },
        get made() {
          return { v: this.o?.k, l: [1] };
        },
      }),
      cls: () => ({ p: new Point(), t: new Point() }),
      maps: () => ({ a: {}, b: { 1: 'x' } }),
      sym: () => ({ [S]: { k: 1 }, a: { k: 2, [S]: 3 } }),
      // Indices of several digits.
      ten: () => ({ l: Array.from({ length: 10 }, (_, i) => i) }),
      hundred: () => ({ l: Array.from({ length: 100 }, (_, i) => i) }),
    };
    const fresh = {
      1: () => 1, 2: () => 2, 5: () => 5, 9: () => 9, 11: () => 11, 99: () => 99, 101: () => 101, u: () => undefined, nul: () => null, t: () => true, f: () => false,
      ox: () => ({ x: 7 }), oyz: () => ({ y: { z: 8 }, x: 1 }), ok: () => ({ k: 9, y: { z: 9 } }), arr: () => [4, { x: 2 }], pt: () => new Point(),
    };
    const DRAFTS = {
      obj: [
        (s) => { s.a = 2; }, (s) => { s.b.x++; }, (s) => { s.b.y.z++; }, (s) => { delete s.a; }, (s) => { delete s.b.y; }, (s) => { s.n = { x: 3 }; s.n.x = 4; },
        (s) => { s.c = s.b; }, (s) => { const t = s.b; s.b = s.c; s.c = t; }, (s) => { Object.assign(s.b, { x: 9, w: 1 }); }, (s) => { s.b = { ...s.b, x: 4 }; },
        (s) => JSON.stringify([s.miss, 'miss' in s, Object.keys(s).sort(), s.b?.miss?.x]), (s) => { for (const k of Object.keys(s.b ?? {})) if (typeof s.b[k] === 'number') s.b[k] += 10; },
        (s) => { s.m = undefined; }, (s) => { s.b = { y: s.b.y }; s.b.y.z = 77; },
        (s) => { s.b.x = 6; s.b.v = 7; return ['x', 'v', 'y'].map((k) => { const { value, ...rest } = Object.getOwnPropertyDescriptor(s.b, k) ?? {}; return [show(unwrap(value)), rest]; }); },
      ],
      arr: [
        (s) => s.l.push(9), (s) => s.l.pop(), (s) => s.l.shift(), (s) => s.l.unshift(8), (s) => s.l.splice(1, 1).length, (s) => { s.l.splice(1, 0, 6, 7); }, (s) => { s.l.reverse(); }, (s) => { s.l.sort((a, b) => (a.x ?? a) - (b.x ?? b)); },
        (s) => { s.l[1].x++; }, (s) => { s.l[s.l.length] = 4; }, (s) => { s.l.length = 1; }, (s) => { s.l = s.l.filter((v) => v !== 1); }, (s) => { s.l = s.l.map((v) => v); }, (s) => s.l.length, (s) => { s.o.m.push({ x: 3 }); }, (s) => { s.o.m = s.l; }, (s) => { delete s.l[0]; }, (s) => { s.l[4] = 5; }, (s) => s.l.indexOf(2) + s.l.findIndex((v) => v?.x === 1), (s) => { s.l.fill(0); }, (s) => [...s.l].length + s.l.concat([1]).length, (s) => { s.l.copyWithin(0, 1); },
      ],
      top: [(s) => s.push(5), (s) => s.pop() !== undefined, (s) => { s[2].x++; }, (s) => { s.sort((a, b) => (a.x ?? a) - (b.x ?? b)); }, (s) => { s.length = 0; }, (s) => s.unshift({ x: 0 }), (s) => s.map((v) => v?.x ?? v).join()],
      acc: [(s) => { s.n++; return s.sum; }, (s) => { s.o.k++; return s.pick; }, (s) => { s.f = !s.f; }, (s) => { s.w = 6; return s.n; }, (s) => { s.w++; return s.w; }, (s) => { delete s.n; return s.w; }, (s) => s.sum + s.pick, (s) => s.made.v, (s) => { s.o = { k: 3 }; return s.sum; }, (s) => { delete s.o.k; return s.pick; }],
      ref: [(s) => { s.r = { k: 4 }; return s.o.k; }, (s) => { s.o.k++; return s.deep; }, (s) => { s.r = s.q; return s.deep; }, (s) => { s.m = 1; return s.has; }, (s) => { delete s.m; return s.has; }, (s) => { s.q.k = 5; return s.r.k; }, (s) => { delete s.o; return s.deep; }],
      cls: [(s) => { s.p.move(3); return s.p.len; }, (s) => { s.p.len = 9; }, (s) => { s.p.x = 4; return s.p.len; }, (s) => s.p instanceof Point, (s) => { s.t = s.p; }, (s) => { s.p.move(1).move(1); }, (s) => { delete s.p.y; }],
      via: [(s) => { s.r.k++; return s.o.k; }, (s) => { s.t.y.z = 3; return s.r.y.z; }, (s) => { s.a.push(7); return s.l.length; }, (s) => { delete s.t.k; return 'k' in s.o; }, (s) => { s.r = { k: 4 }; s.t.k++; return s.o.k; }, (s) => { s.a.length = 1; }],
      ro: [(s) => s.g.k + s.made.v, (s) => { s.o.k++; return s.g.k; }, (s) => { delete s.o.y; return s.g.y; }],
      maps: [(s) => { s.a.k = (s.a.k ?? 0) + 1; }, (s) => { delete s.a.k; }, (s) => JSON.stringify([Object.keys(s.a).sort(), Object.entries(s.b).sort(), 'k' in s.a, Object.hasOwn(s.a, 'k'), s.a.k]), (s) => { for (const k in s.b) delete s.b[k]; }, (s) => { s.b[1] = 'y'; s.b[2] = 'z'; }, (s) => { s.a = s.b; }, (s) => { s.a = { ...s.a, ...s.b }; }],
      ten: [(s) => s.l.push('p'), (s) => s.l.pop(), (s) => s.l.shift(), (s) => s.l.unshift('u'), (s) => s.l.splice(2, 1, 'a', 'b').length, (s) => { s.l.sort(); }, (s) => { s.l.reverse(); }, (s) => { s.l.length = Math.max(0, s.l.length - 2); }, (s) => { s.l[s.l.length + 1] = 'g'; }, (s) => Object.keys(s.l).length],
      hundred: [(s) => s.l.push('p'), (s) => s.l.pop(), (s) => s.l.shift(), (s) => s.l.unshift('u'), (s) => s.l.splice(2, 1, 'a', 'b').length, (s) => { s.l.sort(); }, (s) => { s.l.reverse(); }, (s) => { s.l.length = Math.max(0, s.l.length - 2); }, (s) => { s.l[s.l.length + 1] = 'g'; }, (s) => Object.keys(s.l).length],
      sym: [(s) => { s.b = { [S]: s.a }; }, (s) => { s[S].k++; }, (s) => { s[S] = s.a; }, (s) => { delete s[S]; }, (s) => { s.a = { ...s.a, k: 5 }; }, (s) => `${Reflect.ownKeys(s.a).length}${Object.keys(s).length}${S in s}`, (s) => { s.b = [s.a, { [S]: { x: s[S] } }]; }, (s) => { s.b = hidden(s.a); }, (s) => { s.a[S]++; }],
    };
    const PATHS = {
      obj: [['a'], ['b'], ['b', 'x'], ['b', 'y'], ['b', 'y', 'z'], ['n'], ['c']],
      arr: [['l'], ['l', 0], ['l', 1, 'x'], ['l', 'length'], ['o', 'm'], ['l', 3]],
      top: [[0], [2], [2, 'x'], ['length'], [3]],
      acc: [['n'], ['f'], ['o'], ['o', 'k'], ['w'], ['sum'], ['pick'], ['o', 'y', 'z'], ['made']],
      ref: [['o'], ['o', 'k'], ['r'], ['deep'], ['m'], ['has'], ['q', 'k']],
      cls: [['p'], ['p', 'x'], ['p', 'len'], ['t']],
      via: [['r', 'k'], ['t', 'y', 'z'], ['a', 0], ['a'], ['t'], ['o', 'k'], ['l', 1, 'x'], ['o', 'y']],
      ro: [['g', 'k'], ['made', 'v'], ['g', 'y', 'z'], ['o', 'y'], ['made', 'l']],
      maps: [['a'], ['a', 'k'], ['b', 1], ['b']],
      ten: [['l', 9], ['l', 10], ['l', 'length']],
      hundred: [['l', 99], ['l', 100], ['l', 'length']],
      sym: [[S], [S, 'k'], ['a'], ['a', S], ['b', S]],
    };
    const SETS = {
      obj: [[['a'], '2'], [['b'], 'oyz'], [['b'], 'nul'], [['b', 'x'], '5'], [['b', 'y'], 'ox'], [['b', 'y', 'z'], '5'], [['b', 'y', 'z'], 'u'], [['n'], 'ox'], [['n', 'x'], '2'], [[], 'oyz'], [['c'], 'ox'], [['b', 'w'], '1']],
      arr: [[['l', 0], '5'], [['l', 1, 'x'], '5'], [['l'], 'arr'], [['l', 3], '2'], [['l', 'length'], '1'], [['o', 'm'], 'arr'], [['l', 1], '1']],
      top: [[[0], '5'], [[2, 'x'], '5'], [[3], '1'], [[], 'arr'], [['length'], '1']],
      acc: [[['n'], '2'], [['f'], 'f'], [['f'], 't'], [['o'], 'ok'], [['o', 'k'], '5'], [['w'], '5'], [['o'], 'nul'], [['o', 'y', 'z'], '5']],
      ref: [[['o'], 'ok'], [['o', 'k'], '5'], [['r'], 'ok'], [['m'], '1'], [['m'], 'u'], [['q', 'k'], '5'], [['r', 'k'], '5']],
      cls: [[['p', 'x'], '5'], [['p', 'len'], '5'], [['p'], 'pt'], [['p', 'y'], '1'], [['t', 'x'], '5']],
      via: [[['r', 'k'], '5'], [['t', 'k'], '2'], [['t', 'y', 'z'], '2'], [['r', 'y'], 'ox'], [['a', 0], '5'], [['a', 1, 'x'], '5'], [['a', 'length'], '1'], [['o', 'k'], '1'], [['o', 'y', 'z'], 'u'], [['l', 1, 'x'], '2'], [['t'], 'ok'], [['o'], 'nul']],
      ro: [[['g', 'k'], '5'], [['g', 'n'], '1'], [['g', 'y', 'z'], '2'], [['made', 'v'], '2'], [['made', 'l', 0], '2'], [['made', 'l', 'length'], '1'], [['o', 'k'], '5'], [['o', 'y'], 'ox'], [['o'], 'ok']],
      maps: [[['a', 'k'], '1'], [['b', 1], '2'], [['a'], 'ox'], [['a', 'x'], '5'], [['b', 2], 'u']],
      ten: [[['l', 9], '5'], [['l', 10], '5'], [['l', 11], '5'], [['l', 'length'], '9'], [['l', 'length'], '2'], [['l', 'length'], '11']],
      hundred: [[['l', 99], '5'], [['l', 100], '5'], [['l', 101], '5'], [['l', 'length'], '99'], [['l', 'length'], '9'], [['l', 'length'], '101']],
      sym: [[[S], 'ok'], [[S, 'k'], '5'], [['a', S], '2'], [['a'], 'ok'], [['b'], 'ox']],
    };
    const DELS = { obj: [['a'], ['b'], ['b', 'y'], ['b', 'x'], ['n']], arr: [['l', 0], ['o', 'm'], ['l']], top: [[0], [1]], acc: [['n'], ['o', 'k'], ['o']], ref: [['m'], ['o'], ['q', 'k']], cls: [['p', 'x'], ['t']], ro: [['g', 'k'], ['made', 'v'], ['g', 'y', 'z'], ['o', 'k']], via: [['r', 'k'], ['t', 'y'], ['a', 0], ['t', 'y', 'z'], ['o']], maps: [['a', 'k'], ['b', 1], ['a']], ten: [['l', 9], ['l', 2]], hundred: [['l', 99], ['l', 10]], sym: [[S], ['a', S], ['a']] };

    const PLAIN = ['obj', 'arr', 'top', 'maps', 'sym', 'ten', 'hundred'];
    const depth = (shape) => (shape === 'hundred' ? 2 : 3);
    const names = (path) => path.map(String).join();
    const isObj = (v) => v !== null && typeof v === 'object';
    const show = (v) => {
      const seen = new Map();
      const go = (v) => {
        if (v === undefined) return 'undefined';
        if (!isObj(v)) return JSON.stringify(v);
        const keys = Reflect.ownKeys(v).sort((a, b) => (String(a) < String(b) ? -1 : 1));
        const body = keys.map((k) => {
          const d = Object.getOwnPropertyDescriptor(v, k);
          return `${String(k)}:${'value' in d ? go(d.value) : `get(${go(v[k])})`}`;
        });
        return `${Array.isArray(v) ? '[]' : Object.getPrototypeOf(v) === Point.prototype ? 'Point' : ''}{${body}}`;
      };
      return go(v);
    };
    // A path to a plain value; undefined if a proper prefix is not an object.
    const walk = (root, path) => {
      let v = root;
      for (const k of path) {
        if (!isObj(v)) return undefined;
        v = v[k];
      }
      return v;
    };
    const chain = (d, path) => {
      for (const k of path) {
        if (d === undefined) return undefined;
        d = d.get(k);
      }
      return d;
    };
    function apply(shape, d, P, op) {
      const [kind, i] = op;
      if (shape === 'ro' && (kind === 'set' || kind === 'del')) {
        // an object returned by an accessor without a setter cannot be changed
        const path = kind === 'set' ? SETS[shape][i][0] : DELS[shape][i];
        if (path[0] !== 'o') {
          const t = chain(d, path);
          if (t === undefined) return isObj(walk(P.v, path.slice(0, -1))) ? `get() through ${names(path)} is undefined` : undefined;
          if (kind === 'del' && walk(P.v, path) === undefined) return;
          try {
            if (kind === 'set') t.value = fresh[SETS[shape][i][1]]();
            else t.delete();
          } catch (e) {
            return e instanceof TypeError ? undefined : `writing to ${names(path)} fails with ${e}`;
          }
          return `writing to ${names(path)} of a read-only property is accepted`;
        }
      }
      if (kind === 'set') {
        const [path, v] = SETS[shape][i];
        const owner = path.length === 0 ? { v: P.v } : { v: walk(P.v, path.slice(0, -1)) };
        const t = chain(d, path);
        if (path.length > 0 && !isObj(owner.v)) {
          if (t !== undefined) return `get() through ${names(path)} is not undefined although the owner is ${show(owner.v)}`;
          return;
        }
        if (path.length === 0) P.v = fresh[v]();
        else owner.v[path.at(-1)] = fresh[v]();
        t.value = fresh[v]();
        return;
      }
      if (kind === 'del') {
        const path = DELS[shape][i];
        const owner = walk(P.v, path.slice(0, -1));
        const t = chain(d, path);
        if (!isObj(owner)) return t !== undefined ? `get() through ${names(path)} is not undefined although the owner is ${show(owner)}` : undefined;
        delete owner[path.at(-1)];
        t.delete();
        return;
      }
      if (kind === 'draft') {
        const fn = DRAFTS[shape][i];
        let exp, got;
        try {
          exp = { v: show(fn(structure(P.v, P))) };
        } catch (e) {
          exp = { e: e.constructor.name };
        }
        try {
          got = { v: d.scope((s) => show(unwrap(fn(s)))) };
        } catch (e) {
          got = { e: e.constructor.name, stack: e.stack };
        }
        if (exp.v !== got.v || exp.e !== got.e) return `the draft program ${fn} gives ${got.v ?? got.stack}, on plain data ${exp.v ?? exp.e}`;
        return;
      }
      if (kind === 'read') {
        const path = PATHS[shape][i];
        return compareRead(d, P, path);
      }
      if (kind === 'value') {
        const got = show(d.value);
        if (got !== show(P.v)) return `the value is\n${got}\nexpected\n${show(P.v)}`;
        return;
      }
    }
    // Assigning an object at two places makes plain data share it; a signal
    // does not: copy on assignment of something that belongs to the tree.
    function structure(v) {
      return new Proxy(v, handler);
    }
    const clone = (v) => {
      if (!isObj(v)) return v;
      const target = raw.get(v) ?? v;
      const out = Array.isArray(target) ? [] : Object.create(Object.getPrototypeOf(target));
      for (const k of Reflect.ownKeys(target)) {
        const desc = Object.getOwnPropertyDescriptor(target, k);
        if ('value' in desc) desc.value = clone(desc.value);
        Object.defineProperty(out, k, desc);
      }
      return out;
    };
    const raw = new WeakMap();
    const handler = {
      get(t, k, r) {
        const desc = Object.getOwnPropertyDescriptor(t, k);
        const v = Reflect.get(t, k, r);
        if (isObj(v) && !raw.has(v) && desc !== undefined) {
          const p = new Proxy(v, handler);
          raw.set(p, v);
          return p;
        }
        return v;
      },
      set(t, k, v) {
        const setter = findSetter(t, k);
        if (setter !== undefined) {
          setter.call(structure(t), v);
          return true;
        }
        return Reflect.set(t, k, clone(v));
      },
      defineProperty(t, k, desc) {
        return Reflect.defineProperty(t, k, desc);
      },
    };
    const findSetter = (t, k) => {
      for (let o = t; o !== null; o = Object.getPrototypeOf(o)) {
        const desc = Object.getOwnPropertyDescriptor(o, k);
        if (desc !== undefined) return desc.set;
      }
    };
    function compareRead(d, P, path) {
      const t = chain(d, path);
      const owner = walk(P.v, path.slice(0, -1));
      if (!isObj(owner)) return t !== undefined ? `get() through ${names(path)} is not undefined although the owner is ${show(owner)}` : undefined;
      const got = show(t.value);
      const exp = show(walk(P.v, path));
      if (got !== exp) return `reading ${names(path)} gives ${got}, expected ${exp}`;
    }
    const touched = (shape, op) => (op[0] === 'set' ? [SETS[shape][op[1]][0]] : op[0] === 'del' ? [DELS[shape][op[1]]] : op[0] === 'draft' ? null : []);
    const objects = (v, path = []) => {
      if (!isObj(v)) return [];
      const out = [[path, v]];
      for (const k of Reflect.ownKeys(v)) {
        if ('value' in Object.getOwnPropertyDescriptor(v, k)) out.push(...objects(v[k], [...path, k]));
      }
      return out;
    };
    function run([shape, ops, mode]) {
      const d = Derivable.from(SHAPES[shape]());
      const P = { v: SHAPES[shape]() };
      const json = d.map((v) => show(v));
      const held = []; // objects read earlier with their content
      const remember = (v) => {
        for (const [, o] of objects(v)) held.push([o, show(o)]);
      };
      if (mode !== 'lazy') remember(d.value);
      let problem;
      let log = '';
      for (const [n, op] of ops.entries()) {
        const last = n === ops.length - 1;
        if (mode === 'eager') remember(d.value);
        let subs = [];
        let before;
        let expBefore;
        if (last && (op[0] === 'set' || op[0] === 'del' || op[0] === 'draft')) {
          const [path] = touched(shape, op) ?? [[]];
          for (let k = 0; k <= path.length; k++) {
            const prefix = path.slice(0, k);
            const t = chain(d, prefix);
            if (t === undefined) continue;
            const s = { prefix, n: 0, shallow: 0, was: show(walk(P.v, prefix)) };
            t.subscribe((e) => {
              s.n++;
              s.raw = e;
              s.event = [e.type, ...e.path.map((k) => (typeof k === 'symbol' ? k : String(k)))];
              s.values = e.type === 'set' ? [show(e.oldValue), show(e.newValue)] : [];
              s.seen = show(t.value);
            });
            t.asShallow().subscribe(() => s.shallow++);
            subs.push(s);
          }
          if (mode === 'eager' && op[0] !== 'draft') before = d.value;
        }
        expBefore = show(P.v);
        problem = apply(shape, d, P, op);
        if (problem !== undefined) return `after ${n} operations: ${problem}`;
        for (const s of subs) {
          const now = show(walk(P.v, s.prefix));
          if (now !== s.was && s.n === 0) return `a subscriber of [${names(s.prefix)}] was not notified although it changed from ${s.was} to ${now}`;
          if (s.n > 0 && s.seen !== now) return `a subscriber of [${names(s.prefix)}] read ${s.seen} when it was notified, the value is ${now}`;
          log += s.n;
          // Without accessors a write causes exactly one event.
          if (op[0] === 'draft' || !PLAIN.includes(shape)) continue;
          const [path] = touched(shape, op);
          const self = s.prefix.length === path.length;
          const target = subs.at(-1);
          if (target.prefix.length !== path.length || target.was === show(walk(P.v, path))) continue;
          if (s.n !== 1) return `a subscriber of [${names(s.prefix)}] was notified ${s.n} times of one change of [${names(path)}]`;
          const event = names([op[0] === 'set' ? 'set' : 'delete', ...path.slice(s.prefix.length)]);
          if (names(s.event) !== event) return `a subscriber of [${names(s.prefix)}] hears of the event ${names(s.event)}, expected ${event}`;
          const later = names([s.raw.type, ...s.raw.path]);
          if (later !== event) return `the event that a subscriber of [${names(s.prefix)}] kept says ${later} afterwards, expected ${event}`;
          if (op[0] === 'set' && (s.values[0] !== target.was || s.values[1] !== show(walk(P.v, path)))) return `a subscriber of [${names(s.prefix)}] is told that ${s.values[0]} becomes ${s.values[1]}, but ${target.was} becomes ${show(walk(P.v, path))}`;
          if (s.shallow !== (self ? 1 : 0)) return `a shallow subscriber of [${names(s.prefix)}] was notified ${s.shallow} times of a change of [${names(path)}]`;
        }
        if (mode !== 'lazy' || last) {
          const j = json.value;
          if (j !== show(P.v)) return `after operation ${n} a computed signal reads\n${j}\nexpected\n${show(P.v)}`;
          const got = show(d.value);
          if (got !== show(P.v)) return `after operation ${n} the value is\n${got}\nexpected\n${show(P.v)}`;
          if (d.value !== d.value) return 'two reads without changes give different objects';
        }
        if (before !== undefined) {
          const after = d.value;
          const [path] = touched(shape, op);
          for (const [p, o] of objects(before)) {
            const m = Math.min(p.length, path.length);
            if (p.slice(0, m).every((k, i) => String(k) === String(path[i]))) continue;
            // setters and array lengths change other properties
            if (show(o) === show(walk(after, p)) && walk(after, p) !== o && shape !== 'ref' && shape !== 'via') return `the untouched object at [${names(p)}] lost its identity when [${names(path)}] was written`;
          }
          if (expBefore === show(P.v) && op[0] === 'read' && after !== before) return 'the identity changed without a change';
        }
      }
      for (const [o, text] of held) if (show(o) !== text) return `an object read earlier was modified from\n${text}\nto\n${show(o)}`;
      for (const path of PATHS[shape]) {
        const m = compareRead(d, P, path);
        if (m !== undefined) return `finally ${m}`;
        const owner = walk(P.v, path.slice(0, -1));
        const dr = d.scope((s) => (isObj(s) ? show(unwrap(walk(s, path))) : undefined));
        if (isObj(owner) && dr !== show(walk(P.v, path))) return `finally the draft reads ${names(path)} as ${dr}, expected ${show(walk(P.v, path))}`;
        if (isObj(owner)) {
          const describe = (o) => Reflect.ownKeys(o).sort((a, b) => (String(a) < String(b) ? -1 : 1)).map((k) => {
            const { value, get, set, writable, enumerable, configurable } = Object.getOwnPropertyDescriptor(o, k);
            return [String(k), show(unwrap(value)), typeof get, typeof set, !!writable, enumerable, configurable].join(' ');
          }).join('\n');
          const got = d.scope((s) => describe(walk(s, path.slice(0, -1))));
          if (got !== describe(owner)) return `finally the draft describes the properties of [${names(path.slice(0, -1))}] as\n${got}\nexpected\n${describe(owner)}`;
        }
        const owners = isObj(owner) ? d.scope((s) => Reflect.ownKeys(walk(s, path.slice(0, -1))).map(String).sort().join()) : '';
        if (isObj(owner) && owners !== Reflect.ownKeys(owner).map(String).sort().join()) return `finally the draft lists the keys ${owners} of [${names(path.slice(0, -1))}], expected ${names(Reflect.ownKeys(owner))}`;
      }
      for (const [o, text] of held) if (show(o) !== text) return `an object read earlier was modified from\n${text}\nto\n${show(o)}`;
      ctx.count('transitions', ops.length);
      ctx.outcome(shape + show(P.v) + log);
    }
    await ctx.space('histories', (function* () {
      for (const shape of Object.keys(SHAPES)) {
        const al = [...SETS[shape].map((_, i) => ['set', i]), ...DELS[shape].map((_, i) => ['del', i]), ...DRAFTS[shape].map((_, i) => ['draft', i]), ...PATHS[shape].map((_, i) => ['read', i]), ['value']];
        for (const mode of ['lazy', 'eager']) for (let k = 1; k <= depth(shape); k++) for (const w of words(al.length, k)) yield [shape, w.map((i) => al[i]), mode];
      }
    })(), (item) => run(item));
    // Accessors that are deleted (a known finding: they are not data properties
    // afterwards).  Everything else here is as for other properties.
    await ctx.space('deleted accessors', [['w', 'delete'], ['w', 'delete', 'assign'], ['sum', 'delete'], ['sum', 'delete', 'assign']], ([key, ...ops]) => {
      const d = Derivable.from(SHAPES.acc());
      const P = SHAPES.acc();
      for (const op of ops) {
        try {
          if (op === 'delete') {
            delete P[key];
            d.get(key).delete();
          } else {
            P[key] = 5;
            d.get(key).value = 5;
          }
        } catch (e) {
          return `${op} of ${key} fails with ${e}`;
        }
        if (show(d.value) !== show(P)) return `after ${op} of ${key} the value is ${show(d.value)}, expected ${show(P)}`;
        if (show(d.get(key).value) !== show(P[key])) return `after ${op} of ${key} its signal reads ${show(d.get(key).value)}, expected ${show(P[key])}`;
      }
      ctx.outcome(`d${show(P)}`);
    });
    // Signals of properties held from the start: each keeps referring to its
    // property of the object that had it then, also if the object is replaced.
    await ctx.space('held', (function* () {
      for (const shape of PLAIN) {
        const al = [...SETS[shape].flatMap((_, i) => [['set', i], ['hset', i]]), ...DELS[shape].flatMap((_, i) => [['del', i], ['hdel', i]]), ...DRAFTS[shape].map((_, i) => ['draft', i])];
        for (let k = 1; k <= depth(shape); k++) for (const w of words(al.length, k)) {
          const ops = w.map((i) => al[i]);
          if (!T && k === 3 && (ops[0][0] === 'draft' || !ops[2][0].startsWith('h'))) continue;
          if (ops.some(([kind]) => kind.startsWith('h'))) yield [shape, ops];
        }
      }
    })(), ([shape, ops]) => {
      const d = Derivable.from(SHAPES[shape]());
      const P = { v: SHAPES[shape]() };
      const held = new Map();
      for (const path of [...SETS[shape].map(([path]) => path), ...DELS[shape], ...PATHS[shape]]) {
        if (path.length === 0 || held.has(names(path))) continue;
        const owner = walk(P.v, path.slice(0, -1));
        if (isObj(owner)) held.set(names(path), { t: chain(d, path), owner, key: path.at(-1) });
      }
      for (const [n, [kind, i]] of ops.entries()) {
        if (kind === 'hset' || kind === 'hdel') {
          const [path, v] = kind === 'hset' ? SETS[shape][i] : [DELS[shape][i]];
          const h = held.get(names(path));
          if (h === undefined) return;
          if (kind === 'hset') {
            h.owner[h.key] = fresh[v]();
            h.t.value = fresh[v]();
          } else {
            delete h.owner[h.key];
            h.t.delete();
          }
        } else {
          const problem = apply(shape, d, P, [kind, i]);
          if (problem !== undefined) return `after ${n} operations: ${problem}`;
        }
        if (n < ops.length - 1) continue;
        const got = show(d.value);
        if (got !== show(P.v)) return `after operation ${n} the value is\n${got}\nexpected\n${show(P.v)}`;
        for (const [path, h] of held) {
          const got = show(h.t.value);
          if (got !== show(h.owner[h.key])) return `after operation ${n} the signal of [${path}] held from the start reads ${got}, expected ${show(h.owner[h.key])}`;
        }
      }
      ctx.count('transitions', ops.length);
      ctx.outcome(`h${shape}${show(P.v)}`);
    });
    // Longer histories: every sequence of four operations in the lazy mode.
    if (T) {
      await ctx.space('long', (function* () {
        for (const shape of Object.keys(SHAPES).filter((shape) => depth(shape) === 3)) {
          const al = [...SETS[shape].map((_, i) => ['set', i]), ...DELS[shape].map((_, i) => ['del', i]), ...DRAFTS[shape].map((_, i) => ['draft', i]), ['value']];
          for (const w of words(al.length, 4)) yield [shape, w.map((i) => al[i]), 'lazy'];
        }
      })(), (item) => run(item));
    }
    ctx.count('states', ctx.distinctSet.size);
  },
};
