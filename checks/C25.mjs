// C25 Errors and warnings say where they occurred.
import { Handles } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';

export default {
  id: 'C25',
  rule: 'items are (a) a template (elements, void elements, attributes, text, comments, nested up to a bound) with one faulty expression at every possible place, and (b) a path of components in every form of nesting with a fault in one of them while mounting, updating or scheduling again; the text of the error is parsed and compared with the place of the fault; distinct outcomes are distinct messages',
  assumptions: ['development bundle (production is compared with the plain message)', 'attribute values contain no angle brackets (browsers differ in escaping them)'],
  needs: ['library', 'production'],
  async run(ctx) {
    const { dom } = ctx;
    const { host, drain } = dom;
    const T = ctx.thorough;
    const P = await import(`${ctx.scratch}/barebind.prod.mjs`);
    const MARKER = /\?\$[a-z0-9]{8}/g;

    /** Renders once and returns the texts of the error and of the warnings. */
    async function attempt(B, make) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new B.DOMRoot(container, new B.Runtime(new B.DOMAdapter(document)));
      const warnings = [];
      const { warn } = console;
      console.warn = (m) => warnings.push(String(m));
      let error;
      try {
        const h = root.render(make(B), { flushSync: true });
        h.finished.catch((e) => (error = e));
        await drain();
        await host.settle();
      } catch (e) {
        error = e;
      } finally {
        console.warn = warn;
      }
      return { error, warnings };
    }

    // ---- (a) nodes.  A node is [tag, attributes, children] | text | {comment} | {hole}
    const esc = (s) => s.replaceAll('&', '&amp;');
    const VOID = new Set(['br', 'input', 'hr']);
    const source = (n) => {
      if (typeof n === 'string') return esc(n);
      if (!Array.isArray(n)) return 'comment' in n ? `<!--${n.comment}-->` : n.source;
      const [tag, attrs, children] = n;
      return `<${tag}${attrs.map((a) => ` ${a.source ?? `${a[0]}="${esc(a[1])}"`}`).join('')}>${VOID.has(tag) ? '' : `${children.map(source).join('')}</${tag}>`}`;
    };
    // What the frame shows of a node, without line breaks and indentation.
    const open = (n) => `<${n[0]}${n[1].filter((a) => a.shown !== '').map((a) => ` ${a.shown ?? `${a[0]}="${esc(a[1])}"`}`).join('')}>`;
    const compact = (n) => {
      if (typeof n === 'string') return `"${esc(n)}"`;
      if (!Array.isArray(n)) return 'comment' in n ? `<!--${n.comment}-->` : n.shown;
      return open(n) + (VOID.has(n[0]) ? '' : `${n[2].map(compact).join('')}</${n[0]}>`);
    };
    // Faults: where they go, what the template says, what the frame shows and marks.
    const TEMPLATE = Symbol();
    const FAULTS = {
      // attributes
      event: { attr: '@click=%', value: 5, shown: '', marks: 'element' },
      eventQuoted: { attr: '@click="%"', value: 'x', shown: '', marks: 'element' },
      element: { attr: '%', value: 5, shown: '', marks: 'element' },
      elementFalse: { attr: '%', value: false, shown: '', marks: 'element' },
      elementEmpty: { attr: '%', value: '', shown: '', marks: 'element' },
      eventFalse: { attr: '@click=%', value: false, shown: '', marks: 'element' },
      partial: { attr: 'data-f="x%"', value: 1, shown: 'data-f="xM"', marks: 'self' },
      partialEnd: { attr: 'data-f="% y"', value: 1, shown: 'data-f="M y"', marks: 'self' },
      partialAmp: { attr: 'data-f="a &amp; \'%\'"', value: 1, shown: 'data-f="a &amp; \'M\'"', marks: 'self' },
      name: { attr: 'a%="x"', value: 1, shown: 'aM="x"', marks: 'self' },
      nested: { attr: 'data-f=%', value: TEMPLATE, shown: '', marks: 'element', warning: true },
      nestedProp: { attr: '.foo=%', value: TEMPLATE, shown: '', marks: 'element', warning: true },
      nestedLive: { attr: '$foo=%', value: TEMPLATE, shown: '', marks: 'element', warning: true },
      nestedClass: { attr: 'class=%', value: TEMPLATE, shown: '', marks: 'element', warning: true },
      nestedStyle: { attr: 'style=%', value: TEMPLATE, shown: '', marks: 'element', warning: true },
      // children
      comment: { child: '<!--x %-->', value: 1, shown: '<!--x M-->', marks: 'self' },
      text: { child: '%', value: TEMPLATE, shown: '""', marks: 'self', warning: true, alone: true },
      tag: { child: '<%x>', value: 1, shown: '<!--Mx-->', marks: 'self' },
    };
    /** Puts the fault at the k-th possible place; returns undefined if there is none. */
    function place(tree, fault, k) {
      let n = k;
      let target;
      const visit = (node, path) => {
        if (!Array.isArray(node)) return node;
        let [tag, attrs, children] = node;
        if (fault.attr !== undefined) {
          for (let i = 0; i <= attrs.length; i++) if (n-- === 0) {
            const a = { source: fault.attr, shown: fault.shown };
            const out = [tag, [...attrs.slice(0, i), a, ...attrs.slice(i)], children];
            target = { node: out, attr: a, path: [...path, out] };
            return out;
          }
        }
        if (VOID.has(tag)) return node;
        const kids = [];
        for (let i = 0; i <= children.length; i++) {
          const around = typeof children[i] === 'string' || typeof children[i - 1] === 'string';
          if (fault.child !== undefined && !(fault.alone && around) && n-- === 0) {
            const c = { source: fault.child, shown: fault.shown };
            kids.push(c);
            target = { node: c };
          }
          if (i < children.length) kids.push(visit(children[i], path));
        }
        return [tag, attrs, kids];
      };
      const roots = tree.map((n) => visit(n, []));
      return target === undefined ? undefined : { roots, target };
    }
    const split = (text, value) => {
      const strings = text.split('%');
      strings.raw = strings;
      return [strings, value];
    };
    function checkFrame(message, { roots, target }, marks) {
      const lines = message.split('\n');
      const at = lines.findIndex((l) => /^ *\^+$/.test(l));
      if (at < 2) return 'no marked line';
      if (lines.some((l, i) => i !== at && /^ *\^+$/.test(l))) return 'several marked lines';
      const from = lines[at].indexOf('^');
      const line = lines[at - 1];
      const marked = line.slice(from, lines[at].length);
      const want = marks === 'self' ? (target.attr ? target.attr.shown : compact(target.node)) : open(target.node);
      const norm = (s) => s.replace(MARKER, 'M');
      if (norm(marked) !== want) return `marks ${JSON.stringify(marked)}, expected ${JSON.stringify(want)}`;
      if (target.attr && marks === 'self' && norm(line.trimStart()) !== open(target.node)) return `the marked line is ${JSON.stringify(line)}, expected ${JSON.stringify(open(target.node))}`;
      // The frame is the markup of an element around the fault, or of the template.
      const frame = norm(lines.slice(1).filter((_, i) => i !== at - 1).map((l) => l.trimStart()).join(''));
      const around = [roots.map(compact).join('')];
      const visit = (n) => {
        if (n === target.node) {
          around.push(compact(n));
          return true;
        }
        if (!Array.isArray(n) || !n[2].some(visit)) return false;
        around.push(compact(n));
        return true;
      };
      roots.forEach(visit);
      if (!around.includes(frame)) return `shows ${JSON.stringify(frame)}, expected one of ${JSON.stringify(around)}`;
      // The marked line is that of the fault, not of another node that looks the same.
      const before = norm(lines.slice(1, at - 1).map((l) => l.trimStart()).join(''));
      const whole = frame;
      const lead = [];
      let found = false;
      const walk = (n) => {
        if (found) return;
        if (n === target.node) found = true;
        else if (!Array.isArray(n)) lead.push(compact(n));
        else {
          lead.push(open(n));
          if (VOID.has(n[0])) return;
          n[2].forEach(walk);
          if (!found) lead.push(`</${n[0]}>`);
        }
      };
      roots.forEach(walk);
      if (!lead.join('').endsWith(before)) return `marks a node after ${JSON.stringify(before)}, expected after ${JSON.stringify(lead.join(''))} in ${whole}`;
    }
    const e = (tag, attrs = [], ...children) => [tag, attrs, children];
    const ATTRS = [[], [['id', 'a']], [['id', 'a'], ['title', 'b c']], [['data-f0', 'q&r'], ['data-ff', ''], ['data-', '1']]];
    const LEAVES = ['t', e('br'), e('input', [['type', 'text'], ['value', 'v']]), { comment: 'c' }, e('i'), e('b', [['id', 'x']], 'y'), e('i', [], e('i'))];
    function* trees() {
      for (const a of ATTRS) for (let k = 0; k <= 3; k++) for (const w of words(LEAVES.length, k)) {
        const kids = w.map((i) => LEAVES[i]);
        if (kids.some((n, i) => typeof n === 'string' && typeof kids[i - 1] === 'string')) continue;
        if (k === 3 && !T && a.length !== 1) continue;
        yield [e('div', a, ...kids)];
        if (k < 3) {
          yield [e('p', [], 'z'), e('div', a, ...kids), e('hr')];
          yield [e('ul', [['lang', 'k l m']], e('li', [], e('div', a, ...kids)), e('li', [], 'u'))];
        }
        if (k === 2) yield [e('main', [], e('s', [], ...kids), e('s', [], ...kids), e('s', a, ...kids))];
      }
    }
    // Deeply nested elements, elements of other namespaces and custom ones.
    function* others() {
      for (const tag of ['u', 'x-y']) for (let k = 4; k <= 14; k += 2) {
        let n = e(tag, [], 't');
        for (let i = 1; i < k; i++) n = e(tag, [], n);
        yield [n];
        yield [e('p', [['id', 'a']]), n, e('p')];
      }
      const svg = (...kids) => e('svg', [['viewBox', '0 0 1 1']], ...kids);
      for (const kids of [[], [e('use', [['xlink:href', '#a']])], [e('linearGradient', [['gradientUnits', 'x']], e('stop'))], [e('foreignObject', [], e('div'))]]) {
        yield [svg(...kids)];
        yield [e('p', [], svg(...kids), 't'), e('hr')];
      }
      yield [e('math', [], e('mi', [], 'x'))];
      yield [e('table', [], e('tbody', [], e('tr', [['hidden', '']], e('td', [], 'x'), e('td'))))];
      yield [e('select', [], e('option', [['selected', '']], 'x'), e('option'))];
      yield [e('x-y', [['a', '']], e('x-z'), e('x-z', [['b', '']])), e('x-y')];
    }
    await ctx.space('frames', (function* () {
      for (const tree of others()) for (const f of Object.keys(FAULTS)) if (!(FAULTS[f].child && ['table', 'select', 'math'].includes(tree[0][0]))) yield [f, tree];
      for (const tree of trees()) for (const f of Object.keys(FAULTS)) yield [f, tree];
    })(), async ([f, tree]) => {
      const fault = FAULTS[f];
      for (let k = 0; ; k++) {
        const placed = place(tree, fault, k);
        if (placed === undefined) return;
        if (fault.attr === 'data-f=%' || fault.attr?.startsWith('data-f="')) {
          // No duplicate attribute.
          if (placed.target.node[1].some((a) => a[0] === 'data-f')) continue;
        }
        const text = placed.roots.map(source).join('');
        const make = (B) => {
          const [strings, value] = split(text, fault.value === TEMPLATE ? B.html`<em></em>` : fault.value);
          return B.html(strings, value);
        };
        const where = `${text}: `;
        const dev = await attempt(ctx.B, make);
        ctx.count('transitions');
        let message;
        if (fault.warning) {
          if (dev.warnings.length !== 1) return `${where}${dev.warnings.length} warnings`;
          message = dev.warnings[0];
        } else {
          if (dev.error === undefined) return `${where}no error`;
          if (dev.warnings.length > 0) return `${where}an additional warning`;
          message = dev.error.message;
        }
        const m = checkFrame(message, placed, fault.marks);
        if (m !== undefined) return `${where}the message ${m}\n${message}`;
        ctx.outcome(message.replace(MARKER, 'M'));
        if (fault.marks === 'element' && (k === 0 || T)) {
          const prod = await attempt(P, make);
          if (fault.warning ? prod.warnings.length > 0 : prod.error?.message !== message.split('\n')[0]) return `${where}in production the message is ${prod.error?.message}`;
        }
      }
    });

    // ---- (b) components
    const FORMS = {
      direct: (B, c) => c,
      hole: (B, c) => B.html`<p><${c}></p>`,
      list: (B, c) => [B.html`<hr>`, c, B.html`<br>`],
      keyed: (B, c) => [B.html`<hr>`.withKey(1), c.withKey(2)],
      deep: (B, c) => B.html`<p><${[B.html`<i><${c}></i>`]}></p>`,
      portal: (B, c) => B.createPortal(c, document.createElement('aside')),
      sibling: (B, c) => B.html`<${B.createComponent(function Neighbour() { return null; })({})}><${c}>`,
    };
    const stackOf = (message) => message.split('\n').slice(1);
    async function stacks([forms, fails, moment]) {
      const { B } = ctx;
      host.reset('scheduler');
      const cur = { on: moment === 'mount', sets: [] };
      const types = forms.map((_, i) => B.createComponent({ [`C${i}`](props) {
        const [, set] = this.useState(0);
        cur.sets[i] = set;
        if (i === fails && cur.on) throw new Error(`fault ${i}`);
        return i + 1 < forms.length ? FORMS[forms[i]](B, types[i + 1](props)) : null;
      } }[`C${i}`]));
      const container = document.createElement('div');
      const root = new B.DOMRoot(container, new B.Runtime(new B.DOMAdapter(document)));
      const errors = [];
      const watch = (h) => h.finished.catch((e) => errors.push(e));
      watch(root.render(types[0]({ v: 0 }), { flushSync: true }));
      await drain();
      if (moment !== 'mount') {
        if (errors.length > 0) return `unexpected ${errors[0].message}`;
        cur.on = true;
        if (moment === 'root') watch(root.render(types[0]({ v: 1 }), { flushSync: true }));
        else watch(cur.sets[moment === 'own' ? fails : 0](1, { flushSync: true }));
        if (moment === 'above') for (const i of forms.keys()) watch(cur.sets[i](2, { priority: 'background' }));
        await drain();
        await host.settle();
      }
      const reached = moment !== 'above' || fails === 0;
      if (errors.length === 0) return reached || fails > 0 ? 'no error' : undefined;
      const want = [];
      for (let i = 0; i <= fails; i++) want.push(`C${i}`);
      for (const error of errors) {
        if (!(error instanceof B.RenderError)) return `the error is ${error}`;
        if (error.cause?.message !== `fault ${fails}`) return `the cause is ${error.cause}`;
        const lines = stackOf(error.message);
        const names = lines.map((l) => /C\d+|DOMRoot/.exec(l)?.[0]);
        if (names.shift() !== 'DOMRoot') return `the path does not begin with the root:\n${error.message}`;
        if (names.join() !== want.join()) return `the path is ${names}, expected ${want}\n${error.message}`;
        lines.forEach((l, i) => {
          if (i > 0 && l.search(/C\d/) <= lines[i - 1].search(/C\d|DOMRoot/)) throw new Error(`line ${i} is not indented:\n${error.message}`);
          if (l.includes('ERROR') !== (i === lines.length - 1)) throw new Error(`line ${i} is ${i === lines.length - 1 ? 'not ' : ''}marked:\n${error.message}`);
        });
      }
      ctx.count('states');
      ctx.outcome(`s${errors[0].message}`);
      ctx.sample([forms, fails, moment, errors[0].message]);
    }
    await ctx.space('stacks', (function* () {
      const forms = Object.keys(FORMS);
      for (let k = 1; k <= (T ? 5 : 4); k++) for (const w of words(forms.length, k - 1)) {
        const path = [...w.map((i) => forms[i]), 'direct'];
        for (let f = 0; f < k; f++) for (const moment of ['mount', 'root', 'own', 'above']) yield [path, f, moment];
      }
    })(), stacks);
    await ctx.space('deep stacks', (function* () {
      const forms = Object.keys(FORMS);
      for (let k = 6; k <= (T ? 20 : 12); k++) for (const form of forms) for (let f = 0; f < k; f++) for (const moment of ['mount', 'root', 'own', 'above']) yield [new Array(k).fill(form), f, moment];
    })(), stacks);
  },
};
