// C12 Templates against a reference constructor of the expected document.
import * as path from 'node:path';
import { words } from '../lib/explore.mjs';

export default {
  id: 'C12',
  needs: ['library', 'production'],
  rule: 'an item is an abstract template (nested nodes, attributes, holes, spelling variants); its source strings and, independently, the expected nodes are generated from it; the document, bound properties, listeners and references are compared after rendering, after updating every value, and for two renderings side by side; malformed templates must be rejected; distinct outcomes are distinct documents',
  assumptions: ['templates respect the HTML content model (no foster parenting or implied closing tags)', 'white space containing a line break next to a tag, a hole or the end of a template is insignificant'],
  async run(ctx) {
    const { dom, scratch } = ctx;
    const { host } = dom;
    const T = ctx.thorough;
    const LIBS = { dev: ctx.B, prod: await import(path.join(scratch, 'barebind.prod.mjs')) };
    const NS = { html: 'http://www.w3.org/1999/xhtml', svg: 'http://www.w3.org/2000/svg', math: 'http://www.w3.org/1998/Math/MathML' };
    const RAW = new Set(['style', 'script']);
    // Only ASCII white space is insignificant.
    const strip = (s) => s.replace(/^[\t\n\f\r ]+/, (w) => (w.includes('\n') ? '' : w)).replace(/[\t\n\f\r ]+$/, (w) => (w.includes('\n') ? '' : w));

    // Source and expected structure of a list of abstract nodes.
    function generate(nodes, mode) {
      const strings = [''];
      const holes = []; // kinds
      const emit = (s) => (strings[strings.length - 1] += s);
      const hole = (h) => {
        holes.push(h);
        strings.push('');
        return holes.length - 1;
      };
      // Expected nodes are trees of {tag, ns, attrs, binds, children} and
      // arrays of text pieces.
      const list = (nodes, ns, parent) => {
        const out = [];
        let text = null;
        const endText = () => {
          if (text === null) return;
          const pieces = [];
          let lit = '';
          const flush = () => {
            if (strip(lit) !== '') pieces.push(strip(lit));
            lit = '';
          };
          for (const p of text) {
            if (typeof p === 'string') lit += p;
            else {
              flush();
              pieces.push(p);
            }
          }
          flush();
          if (pieces.length > 0) out.push({ text: pieces });
          text = null;
        };
        for (const [i, node] of nodes.entries()) {
          const [kind] = node;
          if (kind === 't') {
            emit(node[1]);
            let value = node[2] ?? node[1];
            // A line break right after these start tags is dropped.
            if (i === 0 && (parent === 'pre' || parent === 'textarea') && value.startsWith('\n')) value = value.slice(1);
            (text ??= []).push(value);
          } else if (kind === 'H') {
            (text ??= []).push({ hole: hole('text') });
          } else if (kind === 'C') {
            endText();
            const [pre, post] = { undefined: ['<', '>'], slash: ['<', '/>'], space: ['<', ' />'], comment: ['<!--', '-->'], spaced: ['<!-- ', ' -->'] }[node[1]];
            emit(pre);
            out.push({ child: hole(`child-${ns}`) });
            emit(post);
          } else if (kind === 'm') {
            endText();
            emit(`<!--${node[1]}-->`);
            out.push({ comment: node[1] });
          } else if (kind === 'e') {
            endText();
            const [, tag, attrs = [], children = null, close = '>'] = node;
            emit(`<${tag}`);
            const elNs = tag === 'svg' ? 'svg' : tag === 'math' ? 'math' : ns;
            const el = { tag, ns: elNs, attrs: [], binds: [], children: [] };
            for (const [name, form, value] of attrs) {
              if (name === 'ref') {
                emit(form === 'nl' ? '\n  ' : ' ');
                el.binds.push(['ref', '', hole('ref')]);
                continue;
              }
              const [before, after] = { static: [` ${name}="`, '"'], bare: [` ${name}`, ''], u: [` ${name}=`, ''], d: [` ${name}="`, '"'], s: [` ${name}='`, "'"], sp: [` ${name} = `, ''], nl: [`\n  ${name}=`, ''], tab: ['\t' + name + '\t=\n"', '"'] }[form];
              emit(before);
              if (form === 'static') {
                emit(value);
                el.attrs.push([name, value]);
              } else if (form === 'bare') {
                el.attrs.push([name, '']);
              } else {
                const kind = { '@': 'event', '.': 'prop', $: 'live' }[name[0]] ?? (name.toLowerCase() === 'class' ? 'class' : name.toLowerCase() === 'style' ? 'style' : 'attr');
                el.binds.push([kind, name.replace(/^[@.$]/, ''), hole(kind)]);
              }
              emit(after);
            }
            emit(close);
            if (children !== null) {
              el.children = list(children, tag === 'foreignObject' ? 'html' : elNs, tag);
              emit(`</${tag}>`);
            }
            out.push(el);
          }
        }
        endText();
        return out;
      };
      const expected = list(nodes, mode === 'text' ? 'html' : mode, null);
      return { strings, holes, expected };
    }

    function makeValues(B, holes, round, log) {
      return holes.map((kind, i) => {
        const id = `${round}.${i}`;
        switch (kind) {
          case 'text':
            return `${id}<b>&amp;"\n <!-- -->`;
          case 'attr':
            return `${id}"'<i>&lt;>`;
          case 'class':
            return `c${round}-${i}`;
          case 'style':
            return { color: round % 2 ? 'red' : 'blue' };
          case 'event':
            return (e) => log.push([id, e.currentTarget]);
          case 'prop':
            return { id };
          case 'live':
            return `${id}<`;
          case 'ref':
            return (el) => {
              log.push([id, el]);
            };
          case 'child-html':
            return B.html`<i>${id}</i>`;
          case 'child-svg':
            return B.svg`<g>${id}</g>`;
          case 'child-math':
            return B.math`<mi>${id}</mi>`;
        }
      });
    }

    // Compares actual child nodes with the expected structure.
    function matchList(expected, actual, values, round, log) {
      const nodes = [];
      for (const n of actual) {
        if (n.nodeType === 8 && n.data === '') continue;
        if (n.nodeType === 3) {
          if (nodes.length > 0 && typeof nodes.at(-1) === 'string') nodes[nodes.length - 1] += n.data;
          else nodes.push(n.data);
        } else nodes.push(n);
      }
      const want = [];
      for (const e of expected) {
        if (e.text !== undefined) {
          const s = e.text.map((p) => (typeof p === 'string' ? p : values[p.hole])).join('');
          if (want.length > 0 && typeof want.at(-1) === 'string') want[want.length - 1] += s;
          else want.push(s);
        } else want.push(e);
      }
      const show = (x) => (typeof x === 'string' ? JSON.stringify(x) : x.outerHTML ?? JSON.stringify(x));
      const real = nodes.filter((n) => n !== '');
      if (real.length !== want.length) return `found ${real.map(show).join(' ')}, expected ${want.map(show).join(' ')}`;
      for (const [i, w] of want.entries()) {
        const n = real[i];
        if (typeof w === 'string') {
          if (n !== w) return `found ${show(n)}, expected the text ${show(w)}`;
        } else if (w.comment !== undefined) {
          if (n.nodeType !== 8 || n.data !== w.comment) return `found ${show(n)}, expected the comment ${w.comment}`;
        } else if (w.child !== undefined) {
          if (n.nodeType !== 1 || n.textContent !== `${round}.${w.child}` || !['i', 'g', 'mi'].includes(n.localName) || n.attributes.length !== 0) return `found ${show(n)}, expected the child ${round}.${w.child}`;
        } else {
          const m = matchElement(w, n, values, round, log);
          if (m !== undefined) return m;
        }
      }
    }
    function matchElement(w, n, values, round, log) {
      if (n.nodeType !== 1 || n.localName !== w.tag || n.namespaceURI !== NS[w.ns]) return `found ${n.outerHTML ?? n} in ${n.namespaceURI}, expected <${w.tag}> in ${w.ns}`;
      const attrs = new Map(w.attrs.map(([k, v]) => [w.ns === 'html' ? k.toLowerCase() : k, v]));
      for (const [kind, name, i] of w.binds) {
        const v = values[i];
        const id = `${round}.${i}`;
        if (kind === 'attr') attrs.set(w.ns === 'html' ? name.toLowerCase() : name === 'viewbox' ? 'viewBox' : name, v);
        if (kind === 'class') attrs.set('class', v);
        if (kind === 'style') attrs.set('style', `color: ${v.color};`);
        if ((kind === 'prop' || kind === 'live') && n[name] !== v) return `the property ${name} of <${w.tag}> is ${n[name]}, expected ${v}`;
        if (kind === 'ref' && log.filter(([x, el]) => x === id && el === n).length !== 1) return `the reference ${id} was not called with <${w.tag}> once`;
        if (kind === 'event') {
          const before = log.length;
          n.dispatchEvent(new jsdomWindow.Event(name));
          if (log.filter(([x]) => x === id).length !== 1 || log.length !== before + 1 || log.at(-1)[1] !== n) return `the listener ${id} was not called once for ${name} on <${w.tag}>`;
        }
      }
      const got = n.getAttributeNames().sort();
      const exp = [...attrs.keys()].sort();
      if (got.join() !== exp.join()) return `<${w.tag}> has the attributes ${got}, expected ${exp}`;
      for (const [k, v] of attrs) if (n.getAttribute(k) !== v) return `the attribute ${k} is ${n.getAttribute(k)}, expected ${v}`;
      return matchList(w.children, n.childNodes, values, round, log);
    }

    const adapters = { dev: new LIBS.dev.DOMAdapter(), prod: new LIBS.prod.DOMAdapter() };
    const twin = (tag) => [`<${tag} tw=""><`, `></${tag}><${tag} tw=""><`, `></${tag}>`];
    const TWINS = { html: twin('div'), svg: twin('g'), math: twin('mrow') };
    const holder = { html: 'div', svg: 'svg', math: 'math', text: 'textarea' };
    async function check([nodes, mode = 'html', lib = 'dev']) {
      const B = LIBS[lib];
      const { strings, holes, expected } = generate(nodes, mode);
      host.reset('scheduler');
      const container = mode === 'html' || mode === 'text' ? document.createElement(holder[mode]) : document.createElementNS(NS[mode], mode);
      const root = new B.DOMRoot(container, new B.Runtime(adapters[lib]));
      const source = strings.join('${}');
      const build = (round, log) => {
        const values = makeValues(B, holes, round, log);
        return [values, B[mode](strings, ...values)];
      };
      const render = async (v) => {
        let error;
        root.render(v, { flushSync: true }).finished.catch((e) => (error = e));
        await host.settle();
        if (error !== undefined) throw error;
      };
      let first;
      for (let round = 0; round < 2; round++) {
        const log = [];
        const [values, v] = build(round, log);
        await render(v);
        const m = matchList(expected, container.childNodes, values, round, log);
        if (m !== undefined) return `${source}\n${round === 0 ? 'renders' : 'updates to'} ${container.innerHTML}\n${m}`;
        const nodes = [...container.querySelectorAll('*')].filter((n) => !['i', 'g', 'mi'].includes(n.localName));
        if (round === 0) first = nodes;
        else if (first.length !== nodes.length || first.some((n, i) => n !== nodes[i])) return `${source}\nupdating replaced elements`;
      }
      if (mode !== 'text') {
        const logs = [[], []];
        const [va, a] = build(2, logs[0]);
        const [vb, b] = build(3, logs[1]);
        const twins = B[mode](TWINS[mode], a, b);
        await render(twins);
        const both = container.querySelectorAll('[tw]');
        for (const [i, values] of [va, vb].entries()) {
          const m = both.length !== 2 ? `${both.length} copies` : matchList(expected, both[i].childNodes, values, i + 2, logs[i]);
          if (m !== undefined) return `${source}\nside by side renders ${container.innerHTML}\n${m}`;
        }
      }
      root.unmount({ flushSync: true });
      await host.settle();
      if (container.childNodes.length !== 0) return `${source}\nleft ${container.innerHTML} when it was unmounted`;
      ctx.count('transitions', 4);
      ctx.outcome(source);
    }

    const t = (...a) => ['t', ...a];
    const e = (tag, attrs, children, close) => ['e', tag, attrs, children, close];
    const H = ['H'];
    const C = ['C'];
    const b = (...c) => e('b', [], c);
    const CH = [t(' '), t('x'), t('\n '), t(' x\n'), H, C, ['m', 'c'], b(), b(H), e('br', [], null)];
    const seqs = function* (alphabet, min, max) {
      for (let k = min; k <= max; k++) for (const w of words(alphabet.length, k)) yield w.map((i) => alphabet[i]);
    };
    await ctx.space('children', (function* () {
      for (const s of seqs(CH, 0, T ? 5 : 4)) yield [s];
      for (const s of seqs(CH, 0, T ? 4 : 3)) {
        yield [[e('div', [], s), e('p', [['a', 'u']], [H])]];
        yield [[H, e('div', [], s), C]];
        yield [s, 'html', 'prod'];
      }
    })(), check);
    const SP = [t('x'), t(' '), t('\n\t'), t(' \n\f'), t('&nbsp;', '\u00a0'), t('\u00a0'), t('\u2003\n'), H, C, b(t('&emsp;\n', '\u2003\n'))];
    await ctx.space('spaces', (function* () {
      for (const s of seqs(SP, 1, T ? 5 : 4)) yield [s];
      for (const s of seqs(SP, 1, 3)) yield [[e('div', [], s)], 'html', 'prod'];
    })(), check);
    const level = (inner) => {
      const out = [];
      for (let k = 0; k <= 2; k++) for (const w of words(inner.length, k)) out.push(w.map((i) => inner[i]));
      return out;
    };
    const L0 = [t('x'), H, C];
    const L1 = [...L0, ...level(L0).map((c) => e('div', [], c))];
    const L2 = [...L0, ...level(L1).map((c) => e('div', [], c))];
    await ctx.space('nested', (function* () {
      const all = level(L2);
      for (let i = 0; i < all.length; i += T ? 1 : 3) yield [all[i]];
      // Climbing up several levels between holes.
      for (let up = 1; up <= 4; up++) for (let down = 1; down <= 4; down++) for (const h1 of [H, C, e('p', [['a', 'u']], [])]) for (const h2 of [H, C, e('p', [['.q', 'u']], [])]) for (const pad of [[], [t('x')], [b(), b(H)]]) {
        const wrap = (n, x) => (n === 0 ? x : wrap(n - 1, [...pad, e('div', [], x), ...pad]));
        yield [[...wrap(up, [h1]), ...pad, ...wrap(down, [h2])]];
      }
    })(), check);
    const AT = [['a', 'u'], ['b', 'd'], ['C-d', 's'], ['data-e', 'sp'], ['f', 'nl'], ['g', 'tab'], ['class', 'u'], ['style', 'd'], ['@click', 'u'], ['@myEvent', 'd'], ['.prop', 'u'], ['.camelCase', 's'], ['$value', 'u'], ['ref'], ['ref', 'nl'], ['s', 'static', 'x=&quot;'.replace('&quot;', "'")], ['q', 'static', 'y= '], ['z', 'bare'], ['x:y', 'u'], ['on-x', 'd']];
    const distinct = (s) => new Set(s.map(([n]) => n.toLowerCase())).size === s.length;
    // Templates with many holes: indices of one, two and three digits.
    await ctx.space('many', (function* () {
      const E = (n, i) => e(n % 2 ? 'p' : 'q', [[`a${i}`, 'u'], ['s', 'static', 'v'], [`.b${i}`, 'd']], [t('x'), H]);
      for (const n of T ? [9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 31, 33, 64, 99, 100, 101, 110, 255, 256, 257] : [9, 10, 11, 12, 16, 17, 20, 33, 100, 101]) for (const lib of ['dev', 'prod']) {
        const range = Array.from({ length: n }, (_, i) => i);
        yield [range.map(() => H), 'html', lib];
        yield [range.map((i) => (i % 2 ? C : H)), 'html', lib];
        yield [range.map((i) => (i % 3 ? b(H) : t('x'))), 'html', lib];
        yield [[e('p', range.map((i) => [`n${i}`, 'u']), [H])], 'html', lib];
        yield [[e('p', range.map((i) => [i % 4 === 0 ? `.n${i}` : i % 4 === 1 ? `@n${i}` : i % 4 === 2 ? `n-${i}` : `$n${i}`, 'udsd'[i % 3]]), []), e('q', [['h', 'u']], [C])], 'html', lib];
        yield [range.map((i) => E(i, i)), 'html', lib];
        yield [range.reduce((inner, i) => (i > 40 ? inner : [H, e('div', i % 5 ? [] : [['a', 'u']], inner), ...(i % 3 ? [] : [C])]), [t('x')]), 'html', lib];
        yield [[e('svg', [['width', 'u']], range.map((i) => e('circle', [[`r${i}`, 'u']], [])))], 'html', lib];
        yield [range.flatMap((i) => [t(`w${i} `), H]), 'text', lib];
        yield [[e('ul', [], range.map(() => e('li', [], [t('x'), H]))), H], 'html', lib];
        yield [[e('textarea', [['a', 'u']], range.flatMap((i) => [t(`w${i} `), H])), H], 'html', lib];
      }
    })(), check);
    await ctx.space('attributes', (function* () {
      for (const s of seqs(AT, 0, T ? 4 : 3)) {
        if (!distinct(s)) continue;
        if (s.length < 4) {
          for (const close of ['>', ' >', '\n>']) yield [[e('p', s, [H], close), e('q', [['h', 'u']], [C])]];
          yield [[H, e('div', [['i', 'u']], [e('p', s, [C])]), e('q', [], [H])], 'html', s.length < 3 ? 'prod' : 'dev'];
          yield [[e('input', s, null), H]];
          if (s.at(-1)?.[1] !== 'u' && s.at(-1)?.[1] !== 'sp' && s.at(-1)?.[1] !== 'nl') yield [[e('input', s, null, '/>'), H, e('q', [['h', 'u']], [])]];
        } else yield [[e('p', s, [H]), e('q', [['h', 'u']], [C])]];
      }
    })(), check);
    const TX = [t('x'), t(' '), t('\n'), t(' \n y'), H];
    const ENT = t('&lt;b&gt;&amp;', '<b>&');
    await ctx.space('contexts', (function* () {
      for (const s of seqs([...TX, ENT], 0, T ? 5 : 4)) {
        yield [s, 'text'];
        for (const tag of ['textarea', 'title', 'pre']) yield [[e(tag, [['a', 'u']], s), H]];
      }
      for (const s of seqs(TX, 0, 4)) for (const tag of ['style', 'script']) yield [[e(tag, [], [t('/*<b>*/'), ...s]), C]];
      for (const s of seqs([t('\n'), C, ['m', 'c'], ['C', 'slash'], ['C', 'space'], ['C', 'comment'], ['C', 'spaced']], 0, T ? 4 : 3)) {
        yield [[e('ul', [], s), H]];
        yield [[e('table', [], [e('tbody', [['a', 'u']], s)])]];
        yield [[e('table', [], [e('tbody', [], [e('tr', [], [e('td', [], [H]), ...s, e('td', [['b', 'u']], s)])])]), H]];
        yield [[e('select', [['a', 'u']], s), H]];
        yield [[e('tr', [], [e('td', [], s)]), e('tr', [['.p', 'u']], s)]];
      }
      const SV = [t('x'), t('\n'), H, C, e('circle', [['r', 'u']], []), e('g', [['class', 'u'], ['@click', 'u']], [C, H]), e('linearGradient', [['id', 'static', 'k']], [e('stop', [['offset', 'd']], [])])];
      for (const lib of ['dev', 'prod']) {
        for (const s of seqs(SV, 0, 3)) {
          yield [s, 'svg', lib];
          yield [[e('svg', [['width', 'u']], s), H], 'html', lib];
          yield [[e('g', [], s), H], 'svg', lib];
          yield [[e('foreignObject', [], [e('p', [['A', 'u']], [H, C])]), ...s], 'svg', lib];
        }
        for (const name of ['viewBox', 'preserveAspectRatio', 'gradientTransform', 'pathLength', 'viewbox']) for (const form of ['u', 'd', 's', 'nl']) for (const s of [[], [['r', 'u']], [['@click', 'u'], ['.p', 'u']]]) for (const after of [false, true]) {
          const attrs = after ? [...s, [name, form]] : [[name, form], ...s];
          yield [[e('svg', attrs, [H]), H], 'html', lib];
          yield [[e('marker', attrs, [C]), H], 'svg', lib];
        }
        for (const s of seqs([t('x'), t('\n'), H, C, e('mn', [['mathvariant', 'u']], [H]), e('mrow', [], [C, H])], 0, 3)) {
          yield [s, 'math', lib];
          yield [[e('math', [['display', 'u']], s), H], 'html', lib];
        }
      }
    })(), check);

    // Custom elements are what they are when their bindings are written.
    const made = [];
    class Custom extends jsdomWindow.HTMLElement {
      static observedAttributes = ['a', 'class'];
      constructor() {
        super();
        this.calls = [];
        made.push(this);
      }
      attributeChangedCallback(name, _old, v) {
        this.calls.push(`attribute ${name}=${v}`);
      }
      connectedCallback() {
        this.calls.push('connected');
      }
      set p(v) {
        this.calls.push(`property ${v}`);
      }
      get l() {
        return 'start';
      }
      set l(v) {
        this.calls.push(`live ${v}`);
      }
    }
    jsdomWindow.customElements.define('x-custom', Custom);
    await ctx.space('custom elements', (function* () {
      const al = ['a', 'p', 'l', 'e', 'class', 'text', 'child'];
      for (const lib of ['dev', 'prod']) for (const attached of [true, false]) for (const depth of [0, 1, 2]) for (let k = 0; k <= (T ? 4 : 3); k++) for (const w of words(al.length, k)) if (new Set(w).size === k) yield [lib, attached, depth, w.map((i) => al[i])];
    })(), async ([lib, attached, depth, kinds]) => {
      host.reset('scheduler');
      const L = LIBS[lib];
      const container = document.createElement('div');
      if (attached) document.body.append(container);
      try {
        made.length = 0;
        const values = [];
        const exp = [];
        const strings = ['<i>'.repeat(depth) + '<x-custom'];
        const inner = [];
        const hole = (before, v) => {
          strings[strings.length - 1] += before;
          strings.push('');
          values.push(v);
        };
        for (const [n, k] of kinds.entries()) {
          switch (k) {
            case 'a': hole(' a=', `v${n}`); exp.push(`attribute a=v${n}`); break;
            case 'p': hole(' .p=', `v${n}`); exp.push(`property v${n}`); break;
            case 'l': hole(' $l=', `v${n}`); exp.push(`live v${n}`); break;
            case 'class': hole(' class=', `v${n}`); exp.push(`attribute class=v${n}`); break;
            case 'e': hole(' ', (el) => void el.calls.push(`element ${el instanceof Custom}`)); exp.push('element true'); break;
            default: inner.push(k);
          }
        }
        strings[strings.length - 1] += '>';
        for (const k of inner) {
          if (k === 'text') hole('', 'x');
          else {
            hole('<', null);
            strings[strings.length - 1] += '>';
          }
        }
        strings[strings.length - 1] += '</x-custom>' + '</i>'.repeat(depth);
        const root = new L.DOMRoot(container, new L.Runtime(new L.DOMAdapter(document)));
        let bad;
        root.render(L.html(strings, ...values), { flushSync: true }).finished.catch((e) => (bad = e));
        await host.settle();
        if (bad) return `rendering ${strings.join('?')} fails: ${bad.stack}`;
        const el = container.querySelector('x-custom');
        // The template itself holds none that is alive.
        if (made.length !== 1 || made[0] !== el) return `${strings.join('?')} constructs ${made.length} elements`;
        if (attached) exp.push('connected');
        const got = el.calls.filter((x) => !x.endsWith('=null') && !x.includes('?'));
        if (got.join() !== exp.join()) return `${strings.join('?')} calls ${got} of the custom element, expected ${exp}`;
        ctx.count('transitions');
        ctx.outcome(`x${exp}`);
      } finally {
        container.remove();
      }
    });

    // Holes at places where they are not allowed.
    const BAD = [
      '<a b="x${}"></a>', '<a b="${}x"></a>', "<a b='${}${}'></a>", '<a b=x${}></a>', '<a b="x ${} y"></a>', '<a ${}="x"></a>', '<a x${}="1"></a>', '<a x${}></a>', '<a${}></a>', '<x-${}></x-${}>', '<x-${} a=${}></x->',
      '<!--a ${}-->', '<!--${} a-->', '<!--${}${}-->', '<${} ${}>', '<${}x>', '<a b=${} b=${}></a>', '<a b="s" b=${}></a>', '<a ${} ${}></a>', '<a .p=${} .p=${}></a>', '<a @c=${} @C=${}></a>', '<a b=${}/>', '<template>${}</template>', '<template><${}></template>', '<template><a b=${}></a></template>', '<a b="<${}>"></a>', '<a b=${}${}></a>', '<a b=${} B=${}></a>', '<a ${}${}></a>', '<!-- -- ${} -->', '<?x ${}>', '<!DOCTYPE ${}>', '<a b=${',
    ].filter((s) => !s.endsWith('${'));
    const OK = ['', '${}', '<${}>', '<i q=${}></i>', '<i ${}>${}</i>', '<i @z=${}>x<b .p=${}></b></i>'];
    await ctx.space('malformed', (function* () {
      for (const lib of ['dev', 'prod']) for (const bad of BAD) for (const before of OK) for (const after of OK) for (const wrap of T && !bad.startsWith('<template') ? ['', 'div', 'svg'] : ['', 'div']) yield [bad, before, after, wrap, lib];
    })(), async ([bad, before, after, wrap, lib]) => {
      const B = LIBS[lib];
      let src = before + bad + after;
      if (wrap !== '') src = `<${wrap}>${src}</${wrap}>`;
      const strings = src.split('${}');
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new B.DOMRoot(container, new B.Runtime(adapters[lib]));
      let error;
      const f = () => {};
      root.render(B.html(strings, ...strings.slice(1).map(() => f)), { flushSync: true }).finished.catch((e) => (error = e));
      await host.settle();
      if (error === undefined) return `${src}\nis accepted and renders ${container.innerHTML}`;
      if (container.textContent !== '' || container.firstElementChild !== null) return `${src}\nis rejected but leaves ${container.innerHTML}`;
      // The same root still works.
      root.render(B.html`<u>ok</u>`, { flushSync: true });
      await host.settle();
      if (container.firstElementChild?.outerHTML !== '<u>ok</u>') return `after rejecting ${src} the root renders ${container.innerHTML}`;
      ctx.count('transitions', 2);
      ctx.outcome(`bad${error.constructor.name}${error.cause?.message}`.slice(0, 200));
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
