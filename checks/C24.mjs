// C24 The lint rule reports exactly the components that are not named after their variable.
import { spawnSync } from 'node:child_process';
import * as fs from 'node:fs';
import * as path from 'node:path';
import { REPO } from '../lib/bundle.mjs';

// Declarations: `%` is the expression, `N` the variable it is assigned to (if any).
const DECLARATIONS = {
  const: 'const N = %;',
  let: 'let N = %;',
  var: 'var N = %;',
  export: 'export const N = %;',
  typed: 'const N: Component<Props> = %;',
  second: 'const Z0 = 1, N = %;',
  first: 'const N = %, Z1 = 1;',
  comments: 'const /* a */ N /* b */ = /* c */ %;',
  open: 'const N = %',
};
const OTHERS = {
  statement: '%;',
  default: 'export default %;',
  argument: 'register(%);',
  property: 'const N = { N: % };',
  item: 'const N = [%];',
  wrapped: 'const N = wrap(%);',
  conditional: 'const N = a ? % : null;',
  method: 'const N = %.bind();',
  static: 'class Q { static N = %; }',
};
const CALLS = {
  plain: ['createComponent(', ')', true],
  generic: ['createComponent<Props>(', ')', true],
  generics: ['createComponent<Props, Map<A, B<C>>>(', ')', true],
  spaced: ['createComponent( /* d */ ', ' )', true],
  options: ['createComponent(', ', { arePropsEqual })', true],
  comma: ['createComponent(', ',)', true],
  late: ['createComponent(Base, ', ')', false],
  other: ['createContext(', ')', false],
  longer: ['createComponents(', ')', false],
  member: ['React.createComponent(', ')', false],
};
const NAMED = {
  plain: 'function X() {}',
  typed: 'function X(props: Props): VElement { return html`<p></p>`; }',
  generic: 'function X<T>(this: Context, { a, b }: T) { return null; }',
  async: 'async function X() {}',
  generator: 'function* X() {}',
  comments: 'function /* e */ X /* f */ (props) {}',
  inner: 'function X() { const Y = function Y2() {}; return () => Y; }',
};
const ANONYMOUS = {
  plain: 'function () {}',
  tight: 'function() { return null; }',
  typed: 'function (props: Props): VElement { return html`<p></p>`; }',
  generic: 'function <T>(props: T) {}',
  async: 'async function () {}',
  generator: 'function* () {}',
  inner: 'function () { return function Inner() {}; }',
};
const ARROWS = {
  plain: '() => null',
  body: '() => { return html`<p></p>`; }',
  typed: '(props: Props): VElement => html`<p></p>`',
  bare: 'props => props',
  async: 'async () => {}',
  generic: '<T,>(props: T) => null',
};
const NEITHER = { identifier: 'Base', call: 'memo(function X() {})', class: 'class X {}', object: '{ render: function () {} }', string: '"function () {}"', none: '' };
const NAMES = ['MyComponent', 'A', '$x', '_', 'x1'];
const wrong = (name) => ['Other', `${name}s`, `${name}_`, name + name, name.toLowerCase() === name ? name.toUpperCase() + 'Z' : name.toLowerCase(), name.length > 1 ? name.slice(0, -1) : 'B'];
const PLACES = { top: ['', ''], function: ['function f() { ', ' }'], arrow: ['const g = () => { ', ' };'], block: ['if (a) { ', ' }'], component: ['const Outer = createComponent(function Outer() { ', ' return null; });'] };

const MISMATCH = 'mismatch';
const ANON = 'anonymous';
const ARROW = 'arrow';

export default {
  id: 'C24',
  rule: 'an item is a kind of declaration, of place and of call; it is linted with every kind of function (named like the variable, or with near misses, anonymous, arrow, and others) and every name; the diagnostics must be those of a model of the rule, on the right line and within the call; distinct outcomes are distinct sets of diagnostics',
  assumptions: ['every call is written on one line', 'the variable is declared with an identifier'],
  needs: [],
  dom: false,
  async run(ctx) {
    const T = ctx.thorough;
    const biome = path.join(REPO, 'node_modules/.bin/biome');
    const dir = path.join(ctx.scratch, `lint-${ctx.shard}`);
    fs.mkdirSync(dir, { recursive: true });
    fs.writeFileSync(path.join(dir, 'biome.json'), JSON.stringify({ root: true, formatter: { enabled: false }, linter: { rules: { recommended: false } }, plugins: [path.join(REPO, 'biome/use-named-component.grit')] }));
    const lint = (files) => {
      for (const [name, code] of Object.entries(files)) fs.writeFileSync(path.join(dir, name), code);
      const r = spawnSync(biome, ['lint', '--reporter=json', '--max-diagnostics=none', ...Object.keys(files)], { cwd: dir, encoding: 'utf8', maxBuffer: 1 << 28 });
      for (const name of Object.keys(files)) fs.unlinkSync(path.join(dir, name));
      const at = r.stdout.indexOf('{');
      if (at < 0) throw new Error(`biome: ${r.stdout}${r.stderr}`);
      return JSON.parse(r.stdout.slice(at)).diagnostics;
    };
    const kindOf = (d) => {
      if (d.message.includes('must match')) return MISMATCH;
      if (d.message.includes('anonymous functions')) return ANON;
      if (d.message.includes('arrow functions')) return ARROW;
      return d.message;
    };
    await ctx.space('forms', (function* () {
      const calls = Object.keys(CALLS);
      const places = Object.keys(PLACES);
      for (const d of [...Object.keys(DECLARATIONS), ...Object.keys(OTHERS)]) for (const p of places) for (const c of calls) {
        if (!T && p !== 'top' && c !== 'plain' && d !== 'const') continue;
        if (d === 'open' && p === 'component') continue;
        if (p !== 'top' && (d === 'default' || d === 'export')) continue;
        for (const ext of ['ts', 'js', 'tsx']) {
          if (ext !== 'ts' && !T && (p !== 'top' || c !== 'plain')) continue;
          yield [d, p, c, ext];
        }
      }
    })(), ([d, p, c, ext]) => {
      const template = DECLARATIONS[d] ?? OTHERS[d];
      const assigned = d in DECLARATIONS;
      const [before, after, relevant] = CALLS[c];
      const typed = ext === 'js';
      if (typed && (/[:<]/.test(before) || d === 'typed')) return;
      const lines = []; // [code, kind or null, from, to]
      const put = (name, fn, kind) => {
        if (typed && /:|<T/.test(fn.replace(/\{ render: /, ''))) return;
        if (fn === '' && c !== 'plain') return;
        const call = before + fn + after;
        const head = PLACES[p][0];
        const stmt = template.replaceAll('N', name);
        const at = head.length + stmt.indexOf('%');
        lines.push([head + stmt.replace('%', () => call) + PLACES[p][1], relevant ? kind : null, at, at + call.length]);
      };
      for (const name of T ? NAMES : NAMES.slice(0, 3)) {
        for (const fn of Object.values(NAMED)) {
          put(name, fn.replace('X', () => name), null);
          for (const x of wrong(name)) put(name, fn.replace('X', () => x), assigned ? MISMATCH : null);
        }
        for (const fn of Object.values(ANONYMOUS)) put(name, fn, ANON);
        for (const fn of Object.values(ARROWS)) put(name, fn, ARROW);
        for (const fn of Object.values(NEITHER)) put(name, fn.replace('X', () => 'Base'), null);
      }
      // A default export is allowed once per file.
      const files = {};
      if (d === 'default') lines.forEach((l, i) => (files[`f${i}.${ext}`] = `${l[0]}\n`));
      else files[`f.${ext}`] = lines.map((l) => `${l[0]}\n`).join('');
      const found = lines.map(() => []);
      for (const diag of lint(files)) {
        const { path: file, start, end } = diag.location;
        const i = d === 'default' ? Number(/f(\d+)\./.exec(file)?.[1]) : start.line - 1;
        if (found[i] === undefined) return `a diagnostic without a place: ${diag.message}`;
        found[i].push([kindOf(diag), start.column - 1, end.column - 1]);
      }
      ctx.count('transitions', lines.length);
      for (const [i, [code, kind, from, to]] of lines.entries()) {
        const got = found[i].map(([k]) => k);
        if (kind === null ? got.length > 0 : got.length !== 1 || got[0] !== kind) return `${code}\nreported ${JSON.stringify(got)}, expected ${JSON.stringify(kind === null ? [] : [kind])}`;
        if (kind !== null && (found[i][0][1] < from || found[i][0][2] > to)) return `${code}\nreported at columns ${found[i][0].slice(1)}, the call is at ${from}-${to}`;
      }
      ctx.count('states');
      ctx.outcome([d in DECLARATIONS, p, c, lines.map((l) => l[1])]);
      ctx.sample([d, p, c, lines[0][0]]);
    });
  },
};
