// C13 Composed fragments against templates written out by hand.
import { words } from '../lib/explore.mjs';
import { ser } from '../lib/scene.mjs';

export default {
  id: 'C13',
  rule: 'an item is a template site and a sequence of compositions used with it, each a value or fragment per position; strings, values, identity and the rendered document are compared with the template flattened by hand; distinct outcomes are distinct flattened templates',
  assumptions: ['fragments are not passed to the plain html, svg, math and text tags'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host } = dom;
    const { Partial, html, svg, math, Runtime, DOMAdapter, DOMRoot } = B;
    const T = ctx.thorough;
    // Fragments: a string (literal), {s: strings, v: contents} (parsed), or a plain value marker.
    const V = { plain: true };
    const p = (s, ...v) => ({ s, v });
    const FR = [V, 'x', '', 'b', p(['a', 'b'], V), p(['', ''], V), p(['']), p(['ab']), p(['x', '', 'b'], V, V), p(['a', 'b'], 'x'), p(['', 'b'], p(['a', ''], V)), p(['a', 'b'], p(['', '', ''], V, 'x')), p(['', '', ''], p(['a']), V), p(['<', '>'], V)];
    const LATE = T ? FR : FR.slice(0, 12);
    // Fragments whose concatenations coincide although they are split differently.
    const first = FR.length;
    FR.push('a', 'c', 'bc', p(['b', 'c'], V), p(['a', 'b'], 'x'), p(['a', ''], V), p(['', 'c'], V), p(['a', 'bc'], V), p(['', ''], p(['b', 'c'], V)), p(['', '', ''], 'a', V));
    const SPLITS = [0, 2, 3, 4, ...FR.keys().drop(first)];
    const SITES = [['', ''], ['a', 'b'], ['', '', ''], ['a', 'b', 'c'], ['x', '', 'b'], ['', 'a', 'b', ''], ['', '', '', '']];
    let next;
    const make = (f) => {
      if (f === V) return next++;
      if (typeof f === 'string') return Partial.literal(f);
      return Partial.parse(siteOf(f.s), ...f.v.map(make));
    };
    const sites = new Map();
    const siteOf = (s) => {
      const key = JSON.stringify(s);
      if (!sites.has(key)) sites.set(key, s.slice());
      return sites.get(key);
    };
    // A flattened template is a list of strings and value markers.
    const flatten = (s, contents) => {
      const strings = [s[0]];
      let values = 0;
      contents.forEach((f, i) => {
        if (f === V) {
          values++;
          strings.push('');
        } else if (typeof f === 'string') strings[strings.length - 1] += f;
        else {
          const inner = flatten(f.s, f.v);
          strings[strings.length - 1] += inner.strings[0];
          strings.push(...inner.strings.slice(1));
          values += inner.values;
        }
        strings[strings.length - 1] += s[i + 1];
      });
      return { strings, values };
    };
    const TAGS = { html: [Partial.html, html, 'div'], svg: [Partial.svg, svg, 'svg'], math: [Partial.math, math, 'math'] };
    function compose([site, comps]) {
      const s = typeof site === 'number' ? SITES[site].slice() : Array.from({ length: site[0] + 1 }, (_, i) => site[1][i % site[1].length]);
      sites.clear();
      const seen = new Map();
      for (const [n, comp] of comps.entries()) {
        const contents = comp.map((i) => FR[i]);
        next = 0;
        const got = Partial.parse(s, ...contents.map(make));
        const exp = flatten(s, contents);
        const values = Array.from({ length: exp.values }, (_, i) => i);
        if (JSON.stringify(got.strings) !== JSON.stringify(exp.strings) || JSON.stringify(got.values) !== JSON.stringify(values)) return `composition ${n} gives ${JSON.stringify(got.strings)} with ${JSON.stringify(got.values)}, expected ${JSON.stringify(exp.strings)} with ${values}`;
        if (got.strings.length !== got.values.length + 1) return 'the numbers of strings and values do not match';
        const text = exp.strings.map((x, i) => x + (i < values.length ? values[i] : '')).join('');
        if (String(got) !== text) return `composition ${n} as a string is ${String(got)}, expected ${text}`;
        const key = comp.join();
        if (seen.has(key) && seen.get(key) !== got.strings) return `composition ${n} repeats an earlier one, but has another identity`;
        seen.set(key, got.strings);
        ctx.outcome(JSON.stringify(exp.strings));
      }
      ctx.count('transitions', comps.length);
    }
    await ctx.space('histories', (function* () {
      for (let site = 0; site < SITES.length; site++) {
        const n = SITES[site].length - 1;
        const one = words(n === 3 ? 7 : LATE.length, n);
        const all = [...one];
        for (const a of all) yield [site, [a]];
        const few = n === 3 && !T ? all.filter((c) => c.filter((i) => i === 0).length < 2 && c.every((i) => i < 7)) : all;
        for (const a of few) for (const b of few) yield [site, [a, b, a]];
        if (n === 1) for (const a of all) for (const b of all) for (const c of all) yield [site, [a, b, c, a, b, c]];
        if (n === 2) {
          const sub = all.filter((c) => c.every((i) => i < (T ? 8 : 5)));
          for (const a of sub) for (const b of sub) for (const c of sub) yield [site, [a, b, c, b]];
        }
      }
    })(), compose);
    await ctx.space('splits', (function* () {
      for (const site of [2, 3, 4]) {
        const all = [...words(SPLITS.length, 2)].map((w) => w.map((i) => SPLITS[i]));
        for (const a of all) for (const b of all) yield [site, [a, b, a, b]];
      }
      const few = T ? SPLITS.slice(0, 10) : [0, 2, 3, 4, first, first + 1, first + 3];
      const all = [...words(few.length, 3)].map((w) => w.map((i) => few[i]));
      for (const site of [5, 6]) for (const a of all) for (const b of all) yield [site, [a, b, a]];
    })(), compose);

    // Many compositions at one site: all of them recur after all others.
    await ctx.space('recurring', (function* () {
      for (let site = 0; site < SITES.length; site++) {
        const n = SITES[site].length - 1;
        const all = [...words(n === 3 ? 7 : LATE.length, n)];
        for (const k of [4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257]) {
          const some = all.slice(0, k);
          if (some.length < k && all.length !== some.length) break;
          yield [site, [...some, ...some]];
          yield [site, [...some, ...some.toReversed(), ...some]];
          // Each one again after every other.
          if (k <= (T ? 65 : 33)) yield [site, some.flatMap((c) => [c, some[0], ...some])];
        }
      }
    })(), compose);

    // Many positions: one or two of them differ between the compositions.
    await ctx.space('many', (function* () {
      const few = [0, 2, 3, 4, 7, 8, first, first + 1, first + 3, first + 4];
      for (const n of T ? [9, 10, 11, 12, 13, 20, 33, 101] : [10, 11, 12, 33]) for (const parts of [[''], ['a', '', 'b']]) for (const base of [0, 1, 2, 7]) {
        const all = Array.from({ length: n }, () => base);
        for (let i = 0; i < n; i += n > 50 ? 7 : 1) {
          for (const f of few) for (const g of few) yield [[n, parts], [all.with(i, f), all.with(i, g), all.with(i, f)]];
          for (let j = i + 1; j < n; j += n > 20 ? 5 : 1) for (const f of few.slice(0, T ? 10 : 5)) yield [[n, parts], [all.with(i, f), all.with(j, f), all.with(i, f).with(j, f), all.with(i, f)]];
        }
      }
    })(), compose);

    // Rendering: fragments that are markup, in every position and mode.
    const adapter = new DOMAdapter();
    const MF = [V, '<g>l</g>', p(['<g a="', '"></g>'], 'k'), p(['<g a=', '></g>'], V), p(['<', '>'], V), p(['<g>', '</g>', ''], V, p(['<w ', '></w>'], 'q=1')), '', p(['', ''], p(['<w b=', '>', '</w>'], V, V))];
    const MS = [['', ''], ['<p>', '</p>'], ['<p>', '</p><p>', '</p>'], ['', '', '']];
    const adapt = (f, mode) => f;
    async function render([mode, site, comps]) {
      host.reset('scheduler');
      const [composed, plain, tag] = TAGS[mode];
      const ns = { html: 'http://www.w3.org/1999/xhtml', svg: 'http://www.w3.org/2000/svg', math: 'http://www.w3.org/1998/Math/MathML' }[mode];
      const mk = () => {
        const c = document.createElementNS(ns, tag);
        return [c, new DOMRoot(c, new Runtime(adapter))];
      };
      const [c1, r1] = mk();
      const [c2, r2] = mk();
      const s = MS[site].map((x) => (mode === 'html' ? x : x.replaceAll('p>', 'a>')));
      sites.clear();
      const hand = new Map();
      let prev;
      for (const [n, comp] of comps.entries()) {
        const contents = comp.map((i) => adapt(MF[i], mode));
        next = n * 10;
        let error;
        r1.render(composed(s, ...contents.map(make)), { flushSync: true }).finished.catch((e) => (error = e));
        await host.settle();
        const exp = flatten(s, contents);
        const key = JSON.stringify(exp.strings);
        if (!hand.has(key)) hand.set(key, exp.strings);
        r2.render(plain(hand.get(key), ...Array.from({ length: exp.values }, (_, i) => n * 10 + i)), { flushSync: true }).finished.catch((e) => (error ??= e));
        await host.settle();
        if (error !== undefined) return `${key} fails with ${error.stack} ${error.cause?.stack}`;
        const opts = { noComments: true, ns: true };
        if (ser(c1, opts) !== ser(c2, opts)) return `composition ${n} (${key}) renders ${c1.innerHTML}, written out by hand ${c2.innerHTML}`;
        const id = comp.join();
        const nodes = [...c1.querySelectorAll('*')];
        if (prev?.id === id && (nodes.length !== prev.nodes.length || nodes.some((x, i) => x !== prev.nodes[i]))) return `composition ${n} repeats the previous one, but its nodes were replaced`;
        prev = { id, nodes };
      }
      ctx.count('transitions', comps.length);
      ctx.outcome(ser(c1, { ns: true }));
    }
    await ctx.space('rendering', (function* () {
      for (const mode of ['html', 'svg', 'math']) for (let site = 0; site < MS.length; site++) {
        const al = mode === 'html' || T ? MF.length : 5;
        const all = [...words(al, MS[site].length - 1)];
        for (const a of all) yield [mode, site, [a, a]];
        for (const a of all) for (const b of all) if (T || mode === 'html' || a[0] !== b[0]) yield [mode, site, [a, b, a, a]];
      }
    })(), render);
    ctx.count('states', ctx.distinctSet.size);
  },
};
