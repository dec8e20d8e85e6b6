// C10 Router and matchers against a reference matcher.
import { words } from '../lib/explore.mjs';

export default {
  id: 'C10',
  rule: 'an item is a route tree (its first route; the inner loops enumerate sibling routes and all URLs) or a component string; the resolved route, the captures and URL its resolver receives, and the accepted value of each matcher are compared with a reference; distinct outcomes are distinct (route, captures)',
  assumptions: ['regular expressions do not have the sticky flag'],
  async run(ctx) {
    const { B } = ctx;
    const { Router, route, integer, decoded, encoded, keyword, choice, select, regexp } = B;
    const T = ctx.thorough;
    const PAT = {
      a: 'a',
      b: 'b',
      e: '',
      I: integer,
      E: encoded,
      D: decoded,
      K: keyword('a'),
      R: regexp(/^([ab1]?)$/),
      S: select(integer, (n) => [n]),
      C: choice(keyword('b'), integer),
      N: () => undefined,
      U: (component, url) => (component === 'a' ? url : undefined),
      F: () => false,
    };
    const REF = {
      a: (c) => (c === 'a' ? [] : null),
      b: (c) => (c === 'b' ? [] : null),
      e: (c) => (c === '' ? [] : null),
      I: (c) => (c === '1' ? [1] : null),
      E: (c) => [c],
      D: (c) => [c],
      K: (c) => (c === 'a' ? ['a'] : null),
      R: (c) => (['a', 'b', '1', ''].includes(c) ? [[c, c]] : null),
      S: (c) => (c === '1' ? [[1]] : null),
      C: (c) => (c === 'b' ? ['b'] : c === '1' ? [1] : null),
      N: () => null,
      U: (c, u) => (c === 'a' ? [u] : null),
      F: () => [false],
    };
    // A spec is [patterns, resolver kind, children].
    const urls = [];
    for (let n = 1; n <= 4; n++) for (const w of words(4, n)) urls.push(w.map((i) => ['a', 'b', '1', ''][i]).join('/'));
    const shortUrls = urls.filter((u) => u.split('/').length <= 3);
    const build = (specs, log, path = '') =>
      specs.map(([ps, res, children], i) => {
        const name = path + i;
        return route(
          [...ps].map((p) => PAT[p]),
          res === 'null' ? null : (captures, url) => {
            log.push([name, captures.map((c) => (c instanceof Array ? [...c] : c)), url]);
            return res === 'undef' ? undefined : name;
          },
          build(children, log, name),
        );
      });
    const reference = (specs, comps, url, captures = [], path = '') => {
      for (const [i, [ps, res, children]] of specs.entries()) {
        if (ps.length > comps.length) continue;
        const own = [];
        const ok = [...ps].every((p, k) => {
          const m = REF[p](comps[k], url);
          if (m !== null) own.push(...m);
          return m !== null;
        });
        if (!ok) continue;
        const all = [...captures, ...own];
        if (ps.length === comps.length) return { name: path + i, res, captures: all };
        if (children.length > 0) return reference(children, comps.slice(ps.length), url, all, path + i);
      }
      return null;
    };
    function compare(specs, list) {
      const log = [];
      const router = new Router(build(specs, log));
      for (const u of list) {
        for (const url of [u, `/${u}`]) {
          if (url[0] === '/' && u[0] === '/' && url === u) continue;
          log.length = 0;
          const path = url[0] === '/' ? url.slice(1) : url;
          const exp = reference(specs, path.split('/'), url);
          let got;
          try {
            got = router.match(url);
          } catch (e) {
            return `routes ${JSON.stringify(specs)} throw ${e} for ${url}`;
          }
          const expLog = exp === null || exp.res === 'null' ? [] : [[exp.name, exp.captures, url]];
          const expGot = exp === null || exp.res !== 'ok' ? undefined : exp.name;
          if (got !== expGot || JSON.stringify(log) !== JSON.stringify(expLog)) return `routes ${JSON.stringify(specs)} resolve ${url} to ${got} with ${JSON.stringify(log)}, expected ${expGot} with ${JSON.stringify(expLog)}`;
          ctx.count('transitions', 1);
          if (exp !== null) ctx.outcome(exp.name + JSON.stringify(exp.captures));
        }
      }
    }
    const lists = (alphabet, min, max) => {
      const out = [];
      for (let k = min; k <= max; k++) for (const w of words(alphabet.length, k)) out.push(w.map((i) => alphabet[i]).join(''));
      return out;
    };
    // One route with one child: every pattern.
    const all = Object.keys(PAT);
    await ctx.space('single', (function* () {
      for (const ps of lists(all, 0, 2)) for (const res of ['ok', 'null', 'undef']) yield [ps, res];
    })(), ([ps, res]) => {
      for (const c of lists(all, 0, 1)) {
        const m = compare([[ps, res, c === '' && res === 'undef' ? [] : [[c, 'ok', []]]]], shortUrls);
        if (m !== undefined) return m;
      }
      return compare([[ps, res, []]], urls);
    });
    // Two siblings, each with up to two children.
    const P2 = ['a', 'e', 'E', 'I'];
    const kids = [[], ...lists(P2, 0, 1).map((c) => [[c, 'ok', []]]), ...(T ? lists(P2, 0, 1) : ['a', 'I']).flatMap((c) => lists(P2, T ? 0 : 1, 1).map((d) => [[c, 'ok', []], [d, 'ok', []]]))];
    const sib = lists(P2, 0, 2).flatMap((ps) => kids.map((k) => [ps, 'ok', k]));
    const second = T ? sib : lists(P2, 0, 2).flatMap((ps) => [[ps, 'ok', []], [ps, 'ok', [['E', 'ok', []]]]]);
    await ctx.space('siblings', [...sib, ...sib.flatMap(([ps, , k]) => (T || k.length < 2 ? [[ps, 'null', k], [ps, 'undef', k]] : []))], (r) => {
      for (const s of second) {
        const m = compare([r, s], shortUrls.filter((u) => !u.includes('b/')));
        if (m !== undefined) return m;
      }
    });
    // Three levels; abandoned siblings at each of them.
    const P3 = ['a', 'E', 'I'];
    const lead = [[], ...lists(P3, 1, 2)].map((x) => (x.length === 0 ? [] : [[x, 'ok', []]]));
    await ctx.space('levels', (function* () {
      for (const a of lead) for (const b of lead) for (const p of lists(P3, 1, 1)) for (const q of lists(P3, 0, 1)) yield [a, b, p, q];
    })(), ([a, b, p, q]) => {
      for (const c of lead) for (const r of lists(P3, 0, T ? 2 : 1)) {
        const m = compare([...a, [p, 'null', [...b, [q, 'null', [...c, [r, 'ok', []]]]]], ['EEE', 'ok', []]], T ? urls : shortUrls);
        if (m !== undefined) return m;
      }
    });
    // Matchers on every short string.
    const AL = ['0', '1', '9', '-', '+', '.', 'e', 'a', '%', '2', 'F', 'f', ' ', 'N', 'E', '8', 'C', 'x', '\u3042', '\ud800'];
    const decode = (s) => {
      const bytes = [];
      for (let i = 0; i < s.length; ) {
        if (s[i] === '%') {
          if (!/^[0-9a-fA-F]{2}$/.test(s.slice(i + 1, i + 3))) return undefined;
          bytes.push(Number.parseInt(s.slice(i + 1, i + 3), 16));
          i += 3;
        } else {
          const c = String.fromCodePoint(s.codePointAt(i));
          // A lone surrogate cannot be encoded; decoding leaves it alone.
          bytes.push(...(c >= '\ud800' && c <= '\udfff' ? [c] : new TextEncoder().encode(c)));
          i += c.length;
        }
      }
      let out = '';
      let run = [];
      const flush = () => {
        out += new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(new Uint8Array(run));
        run = [];
      };
      try {
        for (const b of bytes) {
          if (typeof b === 'string') {
            flush();
            out += b;
          } else run.push(b);
        }
        flush();
      } catch {
        return undefined;
      }
      return out;
    };
    const kw = keyword('1a');
    const log = [];
    const ch = choice((c) => (log.push('p'), integer(c)), (c) => (log.push('q'), kw(c)), (c, u) => (log.push('r'), c.length > 1 ? u : undefined));
    const sel = select(kw, (v) => `<${v}>`);
    const rx = regexp(/(\d)(a)?/);
    const anchored = regexp(/^a+$/i);
    const global = regexp(/[0-9]/g);
    const same = (x, y) => Object.is(x, y);
    await ctx.space('matchers', (function* () {
      for (const s of ['', 'NaN', 'Infinity', '-Infinity', '9007199254740991', '9007199254740992', '9007199254740993', '-9007199254740992', '9007199254740994', '100000000000000000000', '99999999999999990000', '4294967296', '-2147483649', '1e21', '1e+21', '%E3%81%82', '%E3%81', '%C0%80', '%ED%A0%80', '%F0%9F%98%80', 'undefined', 'null', '00', '-0', '%25', '%2525']) yield s;
      for (let k = 1; k <= (T ? 4 : 3); k++) for (const w of words(AL.length, k)) yield w.map((i) => AL[i]).join('');
    })(), (s) => {
      const int = /^(0|-?[1-9][0-9]*)$/.test(s) && String(Number(s)) === s ? Number(s) : undefined;
      if (!same(integer(s, '/'), int)) return `integer(${JSON.stringify(s)}) is ${integer(s)}, expected ${int}`;
      let d;
      try {
        d = decoded(s, '/');
      } catch (e) {
        return `decoded(${JSON.stringify(s)}) throws ${e}`;
      }
      if (d !== decode(s)) return `decoded(${JSON.stringify(s)}) is ${JSON.stringify(d)}, expected ${JSON.stringify(decode(s))}`;
      if (encoded(s, '/') !== s) return `encoded(${JSON.stringify(s)}) is ${encoded(s)}`;
      const k = s === '1a' ? s : undefined;
      if (kw(s, '/') !== k) return `keyword of ${JSON.stringify(s)} is ${kw(s)}`;
      if (sel(s, '/') !== (k === undefined ? k : '<1a>')) return `select of ${JSON.stringify(s)} is ${sel(s)}`;
      log.length = 0;
      const c = int !== undefined ? int : k !== undefined ? k : s.length > 1 ? '/u' : undefined;
      if (!same(ch(s, '/u'), c) || log.join('') !== (int !== undefined ? 'p' : k !== undefined ? 'pq' : 'pqr')) return `choice of ${JSON.stringify(s)} gives ${ch(s, '/u')} after ${log}`;
      for (let n = 0; n < 2; n++) {
        const m = rx(s, '/');
        const i = [...s].join('') === s ? s.search(/[0-9]/) : -1;
        if ((m === undefined) !== i < 0) return `regexp of ${JSON.stringify(s)} gives ${m}`;
        if (m !== undefined && (m.index !== i || m[1] !== s[i] || m[2] !== (s[i + 1] === 'a' ? 'a' : undefined))) return `regexp of ${JSON.stringify(s)} gives ${[...m]} at ${m.index}`;
        const g = global(s, '/');
        if ((g === undefined) !== i < 0 || (g !== undefined && g[0] !== s[i])) return `global regexp of ${JSON.stringify(s)} gives ${g}`;
        if ((anchored(s, '/') !== undefined) !== (s.length > 0 && s.replaceAll('a', '').replaceAll('A', '') === '')) return `anchored regexp of ${JSON.stringify(s)} gives ${anchored(s)}`;
      }
      ctx.count('transitions', 6);
      ctx.outcome(`m${int === undefined}${d === undefined}${k}${typeof c}`);
    });
    // ---- accepted values of every kind, through wrappers and routes
    const VALUES = [['0', 0], ['-0', -0], ['', ''], ['f', false], ['n', null], ['N', NaN], ['u', undefined], ['t', true], ['o', { o: 1 }], ['s', 'x'], ['arr', []]];
    const WRAP = ['select', 'choice', 'choiceN', 'choice2'];
    await ctx.space('values', (function* () {
      for (let v = 0; v < VALUES.length; v++) for (let k = 0; k <= (T ? 5 : 4); k++) for (const w of words(WRAP.length, k)) yield [v, w.map((i) => WRAP[i])];
    })(), ([v, wraps]) => {
      const value = VALUES[v][1];
      const args = [];
      let m = (component, url) => {
        args.push([component, url]);
        return value;
      };
      let exp = value;
      for (const w of wraps) {
        if (w === 'select') {
          m = select(m, (x) => [x]);
          exp = exp === undefined ? undefined : [exp];
        } else if (w === 'choice') m = choice(m, keyword('zz'));
        else if (w === 'choiceN') m = choice(() => undefined, m);
        else {
          m = choice(m, () => 'second');
          exp = exp === undefined ? 'second' : exp;
        }
      }
      const eq = (a, b) => (Array.isArray(a) && Array.isArray(b) && a.length === b.length ? a.every((x, i) => eq(x, b[i])) : Object.is(a, b));
      const got = m('c', '/u');
      if (!eq(got, exp)) return `${wraps.reverse()} of a matcher accepting as ${String(value)} gives ${JSON.stringify(got)}, expected ${JSON.stringify(exp)}`;
      if (args.length !== 1 || args[0][0] !== 'c' || args[0][1] !== '/u') return `the matcher was called with ${JSON.stringify(args)}`;
      const log = [];
      const router = new Router([route(['p', m], (c) => (log.push(c), 'first'), [route(['q'], (c) => (log.push(c), 'child'))]), route(['p', encoded], () => 'second')]);
      const r = [router.match('/p/c'), router.match('p/c/q')];
      const e = exp === undefined ? ['second', undefined] : ['first', 'child'];
      if (r[0] !== e[0] || r[1] !== e[1]) return `routes give ${r}, expected ${e}`;
      if (exp !== undefined && (log.length !== 2 || !log.every((c) => c.length === 1 && eq(c[0], exp)))) return `captures ${JSON.stringify(log)}`;
      ctx.count('transitions', wraps.length + 3);
      ctx.outcome(`v${v}${JSON.stringify(got)}${r}`);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
