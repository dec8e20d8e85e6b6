// C22 The template-minifying plugin: differential execution of original and built modules.
import * as fs from 'node:fs';
import { createRequire } from 'node:module';
import * as path from 'node:path';
import { REPO } from '../lib/bundle.mjs';
import { words } from '../lib/explore.mjs';

export default {
  id: 'C22',
  needs: ['library', 'plugin'],
  rule: 'an item is a module with a template built from a sequence of fragments (text with line breaks and angle brackets, tags, quoted attributes, raw text and preformatted elements, comments, escapes, holes, nested templates) under a tag, or with surrounding code in one of the supported languages; the module is passed through the plugin, both versions are executed, and the rendered documents (or, for surrounding code, the compiled modules) are compared; distinct outcomes are distinct documents',
  assumptions: ['the HTML content model is respected', 'nested templates are not placed in preformatted elements', 'white space containing a line break is insignificant next to a tag, a hole or the end of a template, and otherwise the same as a space, except in preformatted and raw text elements and quoted attributes'],
  async run(ctx) {
    const { B, dom, scratch } = ctx;
    const { host, drain } = dom;
    const T = ctx.thorough;
    const { minifyTemplates } = await import(path.join(scratch, 'plugin.mjs'));
    const esbuild = createRequire(path.join(REPO, 'tools/esbuild-plugin-minify-templates/package.json'))('esbuild');
    const dir = path.join(scratch, `c22-${process.pid}`);
    fs.mkdirSync(dir, { recursive: true });
    const plugin = (options) => {
      const loads = [];
      minifyTemplates(options).setup({ onLoad: (o, cb) => loads.push([o, cb]), onResolve() {}, onStart() {}, onEnd() {}, initialOptions: {} });
      return async (source, ext) => {
        const file = path.join(dir, `input.${ext}`);
        fs.writeFileSync(file, source);
        for (const [{ filter }, cb] of loads) {
          if (!filter.test(file)) continue;
          const r = await cb({ path: file, namespace: 'file', suffix: '', pluginData: undefined, with: {} });
          if (r) return r;
        }
      };
    };
    const built = plugin();

    // ---- rendering
    const PRE = new Set(['pre', 'textarea', 'script', 'style']);
    const ser = (node, pre) => {
      let out = '';
      let text = null;
      const flush = () => {
        if (text !== null) out += `"${pre ? text : text.replace(/[\t\n\f\r ]+/g, ' ')}"`;
        text = null;
      };
      for (const n of node.childNodes) {
        if (n.nodeType === 3) {
          if (n.data !== '') text = (text ?? '') + n.data;
        } else if (n.nodeType === 1) {
          flush();
          const attrs = [...n.attributes].map((a) => ` ${a.name}=${JSON.stringify(['class', 'style'].includes(a.name) ? a.value.replace(/\s+/g, ' ').trim() : a.value)}`).sort().join('');
          out += `<${n.localName}${n.p === undefined ? '' : ` .p=${n.p}`}${attrs}${(world.hits.get(n) ?? []).join('')}>${ser(n, pre || PRE.has(n.localName))}</>`;
        }
      }
      flush();
      return out;
    };
    const adapters = [new B.DOMAdapter(document), new B.DOMAdapter(document)];
    let world;
    const VALUE = {
      t: (i) => `T${i}`,
      a: (i) => `a${i}`,
      c: (i) => B.html`<i>${`c${i}`}</i>`,
      e: (i) => () => world.clicks.push(i),
      r: (i) => (el) => {
        world.refs.push(i);
        world.hits.set(el, [...(world.hits.get(el) ?? []), ` ref${i}`]);
      },
    };
    async function render(which, f, values) {
      host.reset('scheduler');
      world = { clicks: [], refs: [], hits: new Map() };
      const container = document.createElement('div');
      const root = new B.DOMRoot(container, new B.Runtime(adapters[which]));
      let error;
      const vals = values.map((k, i) => VALUE[k](i));
      const calls = [];
      const other = (name) => (strings, ...vs) => {
        calls.push([name, [...strings], [...strings.raw], vs.length]);
        return name;
      };
      const tags = { html: B.html, svg: B.svg, math: B.math, css: other('css'), htm: other('htm'), htmls: other('htmls'), xhtml: other('xhtml'), CSS: other('CSS'), x: { html: B.html, y: { html: B.html }, htm: other('x.htm') }, call: () => B.html, raw: other('raw'), z: { html: Object.assign(() => other('z.html()'), { raw: other('z.html.raw') }), HTML: other('z.HTML'), css: () => other('z.css()') } };
      try {
        const element = f(tags, vals);
        root.render(element, { flushSync: true }).finished.catch((e) => (error = e));
        await host.settle();
      } catch (e) {
        error = e;
      }
      if (error !== undefined) return { error: `${error.constructor.name}` };
      for (const el of container.querySelectorAll('*')) {
        const n = world.clicks.length;
        el.dispatchEvent(new Event('click'));
        if (world.clicks.length > n) world.hits.set(el, [...(world.hits.get(el) ?? []), ` click${world.clicks.slice(n)}`]);
      }
      return { doc: ser(container, false), html: container.innerHTML, calls };
    }
    const compileJS = (code) => new Function(`${code}\nreturn f`)();
    const program = (tag, source) => `const f = ({ html, svg, math, css, htm, htmls, xhtml, CSS, x, call, raw, z }, v) => ${tag.includes('@') ? tag.replace('@', () => `\`${source}\``) : `${tag}\`${source}\``};\n`;
    const numbered = (source) => {
      const kinds = [];
      return [source.replace(/\$\{([a-z])\}/g, (_, k) => `\${v[${kinds.push(k) - 1}]}`), kinds];
    };
    async function differential(code, kinds) {
      const out = await built(code, 'js');
      const after = out === undefined ? code : out.contents;
      const a = await render(0, compileJS(code), kinds);
      let b;
      try {
        b = await render(1, compileJS(after), kinds);
      } catch (e) {
        return `${code}\nis built into\n${after}\nwhich fails: ${e}`;
      }
      ctx.outcome(a.doc ?? a.error);
      ctx.count('transitions', 2);
      if (a.doc !== b.doc || a.error !== b.error) return `${code}\nrenders ${a.doc ?? a.error}\nand built into\n${after}\nrenders ${b.doc ?? b.error}`;
      if (a.error !== undefined) ctx.count('rejected');
      if (JSON.stringify(a.calls) !== JSON.stringify(b.calls)) return `${code}\ncalls other tags with ${JSON.stringify(a.calls)}\nand built into\n${after}\nwith ${JSON.stringify(b.calls)}`;
    }
    const check = ([tag, source]) => {
      const [s, kinds] = numbered(source);
      return differential(program(tag, s), kinds);
    };
    const TEXT = ['x', ' ', '\n', '\n  ', '  \n\t', ' y\n z ', '\r\n ', '&lt;\n', '&nbsp;\n', '\n\u00a0', '\u2003\n', '>', '>\n', ' >\n ', '< ', '<\n', ' <\n b', '\\n', '\\n\n', '\\\n', ' \\\n  ', '\\`', '\\${', '$', '\\\\', '\\\\\n', '\\x20\n', '"', "'\n", '=\n', '/\n'];
    const HOLES = ['${t}', '<${c}>', '<!--${c}-->', '<${c}\n>', '<${c}/>'];
    const ELEMENTS = [
      '<b></b>', '<b>\n</b>', '<b\n>x</b\n>', '<b>\n  ${t}\n</b>', '<b> x\n<i>\n</i> </b>', '<br>', '<br\n/>', '<i\n  class="p\n q"\n></i>', '<i title="a\n b"></i>', '<i title=" >\n b"></i>', "<i title='\"\n>'></i>", '<i title="<\n b>\n"></i>', "<i title=it's\n lang=en></i>", '<i a=${a}\n b></i>', '<i\n a=${a}\n></i>', '<i a="${a}"\n${r}></i>', '<i a=${a}\n\n @click=${e}\n>\n</i>', '<i .p=${a}\n>${t}\n</i>', "<i a\n=\n'${a}'\n></i>",
      '<pre>\n a\n   b\n</pre>', '<pre\n title="x">x\n  <b>\n y</b>\n z</pre>', '<PRE> \n\n${t}\n  x\n</PRE>', '<textarea>\n x\n  y</textarea>', '<textarea a=${a}>z\n  ${t}</textarea>', '<script>// c\nfoo(a <\n b)</script>', '<style>a >\n b {}\n</style>', '<pre-x>\n a\n  b</pre-x>', '<pre>a<pre>\nb</pre>\n c\n  d</pre>', '<textarea>a\n<b\n>', '<!--a\n<b\n>', '<!-->\n<b\n>\n a', '<!--->\n<b\n>', '<!--a--!>\n<b\n>', '<pre>\n<i title="</pre>\n">\n a\n  b</i></pre>', '<i title="<pre>"\n>\n a\n  b</i>', '<title>x\n  y</title>',
      '<!-- a\n -->', '<!-- <b\n> -->', '<!-- "\n -->',
    ];
    const SMALL = ['x', ' ', '\n ', ' \n', '>\n', '<\n', '\\\n', '\\n\n', '&nbsp;\n', "'", '${t}', '<${c}>', '<b></b>', '<b>\n x</b>', '<i\n a=${a}\n></i>', "<i title='\n>'></i>", '<pre>\n a\n  b</pre>', '<textarea>c\n d</textarea>', '<!-- "\n -->', '<br\n>'];
    const MOCK = [...TEXT, ...HOLES, ...ELEMENTS];
    const seqs = function* (al, from, to) {
      for (let k = from; k <= to; k++) for (const w of words(al.length, k)) yield w.map((i) => al[i]).join('');
    };
    await ctx.space('templates', (function* () {
      for (const s of seqs(MOCK, 0, 2)) yield ['html', s];
      for (const s of seqs(SMALL, 3, T ? 4 : 3)) yield ['html', s];
      if (T) for (const s of seqs(MOCK, 3, 3)) yield ['html', s];
    })(), check);
    // A list of fragments as the children of an element or within an attribute or raw text.
    await ctx.space('contexts', (function* () {
      for (const s of seqs([...SMALL, '=', '"', '-', '\\`'], 1, T ? 3 : 2)) {
        for (const [open, close] of [['<div>', '</div>'], ['\n<p>\n', '\n</p>\n']]) yield ['html', open + s + close];
        if (/\$\{[tc]\}/.test(s)) continue;
        for (const tag of ['pre', 'textarea', 'script', 'style', 'title']) if (!s.includes(`</${tag}`)) yield ['html', `\n<${tag}>\n${s}\n\n </${tag}>\n`];
        if (!s.includes('"') && !s.includes('$')) yield ['html', `<p title="${s}"\n>\nx</p>\n`];
        if (!s.includes("'") && !s.includes('$')) yield ['html', `<p\ntitle='${s}'>\nx</p>\n`];
        if (!s.includes('>') && !s.includes('--') && !s.includes('$')) yield ['html', `a\n<!--${s}-->\nb\n`];
      }
    })(), check);
    const FOREIGN = ['x', '\n ', '>\n', '${t}', '<${c}>', '<circle\n r=${a}\n/>', '<g\n>\n</g>', '<g title="\n>"/>', '<text>\n a\n b ${t}\n</text>', '<style>a\n{}</style>', '<foreignObject><p\n>\n x</p></foreignObject>', '<title>\nx</title>', '<![CDATA[\n x <\n]]>', '<mn\n>\n1</mn>'];
    await ctx.space('foreign', (function* () {
      for (const s of seqs(FOREIGN, 0, T ? 4 : 3)) for (const tag of ['svg', 'math']) {
        if (tag === 'math' && /circle|<g|<text|foreign/.test(s)) continue;
        yield [tag, s];
        if (s.length < 60) yield ['html', `<${tag}\n>${s}\n</${tag}>`];
      }
    })(), check);
    // Tags: which templates are minified, and which are not.
    await ctx.space('tags', (function* () {
      const inner = ['', 'x\n y', '<b\n>\n</b>\n', '<i title=${raw`a\n <\n`}>\n</i>', '<i title=${`a\n <\n`}>\n</i>', '<${html`\n <u>\n n</u>`}>\n', '<${x.html`\n <u>\n n\n</u>${v[0]}\n`}>', '<${[html`<s>\n</s>`].map((q) => html`\n<p>\n<${q}>\n</p>`)}>', '\n${raw`\n${html`<b>\n</b>` && raw`\n`}`}', "\n${(() => { const s = '\\`\\n'; return `${s}\n>\n`; })()}", '<${call()`\n <u>\n n</u>\n`}>', '${v[0]}\n'];
      for (const tag of ['html', 'x.html', 'x.y.html', 'x["html"]', 'call()', '(html)', '(0, html)', 'x?.y.html'.replace('?', ''), 'html ', 'html\n', 'svg']) for (let k = 1; k <= (T ? 3 : 2); k++) for (const w of words(inner.length, k)) yield [tag, w.map((i) => inner[i]).join('')];
    })(), ([tag, source]) => differential(program(tag, source), ['t']));
    await ctx.space('others', (function* () {
      for (const tag of ['htm', 'htmls', 'xhtml', 'CSS', 'raw', 'x.htm', 'z.html()', 'z.html(1)', 'z.html.raw', 'z.HTML', 'z.css()', '(() => raw)()', 'raw.bind(null)', '(call(), raw)', '((html) => html()@)(() => raw)', '((css) => new (css(1))@)(() => raw)', '((html) => html()()@)(() => () => raw)']) for (const s of seqs(['x', '\n ', '<\n', '>\n', '\\n', '\\\n', '${v[0]}', '${html`<b>\n</b>` && 1}', '\\u{1f600}', 'é'], 0, T ? 4 : 3)) yield [tag, s];
    })(), ([tag, source]) => differential(program(tag, source), ['t']));
    // Style sheets: line breaks are the same as spaces, and insignificant next to angle brackets.
    const css = (strings) => strings.join('\0').replace(/\s+/g, ' ').replace(/ *([<>]) */g, '$1').replace(/^ | $/g, '');
    await ctx.space('css', (function* () {
      for (const s of seqs(['a', ' ', '\n  ', '\n', ' > ', '>\n', '${v[0]}', '{', '}\n', ':', '"x"', ';\n', '\\\\a'], 0, T ? 5 : 4)) yield [s];
    })(), async ([source]) => {
      const code = program('css', source);
      const out = await built(code, 'js');
      const after = out === undefined ? code : out.contents;
      const run = (c) => {
        let got;
        compileJS(c)({ css: (s) => (got = [...s]) }, ['1']);
        return got;
      };
      const [a, b] = [run(code), run(after)];
      if (css(a) !== css(b) || a.length !== b.length) return `${code}\nis built into ${JSON.stringify(b)}`;
      ctx.outcome(css(a));
    });

    // ---- surrounding code
    const SNIPPETS = {
      js: ['', '\uFEFF', '#!/usr/bin/env node\n', '"use strict";', '/* é */', '// 😀 html`\\n`\n', 'let é = "\u{1F600}\\u2028";\r\n', '/** @license x */ let l = 1;', 'const p = /* @__PURE__ */ foo();', 'import x from "./x.json" with { type: "json" };', 'let a1 = (1, 2), b1 = (null ?? 1) || 2, c1 = (-1) ** 2, d1 = (() => ({}))(), e1 = new (q.y().z)(), g1 = (q?.b).c;', 'for (let i = ("a" in p) ? 1 : 2; i < 2; i++);', 'export default (class {});', 'do q++; while (q < 5); var r1 = /[/`]\\//g, s1 = `\\`${`${1}`}`;', 'class K { #p = 1; static { K.x = 1 } static x; has(o) { return #p in o } get q() { return 1 } async *g() { yield* (yield 1, 2) } }', 'label: for (;;) { break label } if (q) { if (r1) z } else w;', 'export * as ns from "x"; export { q as "b c" } from "x"; await 1; import.meta.url; q ??= 1;', 'let n1 = 1_000n, n2 = 0x1F, n3 = .5.toFixed(), n4 = - -1, n5 = q++ / 2 / r1;', 'let w1 = htm`\n a\n <b`, w2 = q.w`\n>\n`, w3 = `\n<\n`;', '{ using u1 = b(); }', 'let o1 = { __proto__: null, ["__proto__"]: 1, async() {}, get() {}, static: 1 };'],
      ts: ['const enum E { A = 1, B = A << 2 } enum F { A, "b-c" = 3 } let v9 = [E.B, F["b-c"]];', 'namespace N.M { export const a = 1; } import Q = N.M; let z9 = Q.a;', 'abstract class A9<T> { constructor(private readonly a: T, public b?: number) {} abstract m(): void; declare c: string; accessor y = 1; }', 'let a9 = {} satisfies object as const as any; let b9 = a9!.x!; let e9 = foo<string>; function as9(x: any): asserts x is string {} type T9 = `a\n${string}`;', 'import { type Z, w as w9 } from "z"; import type D from "d"; export type { X } from "y"; import { onlyType } from "t"; let k9: onlyType;', 'function ov(a: 1): 1; function ov(a: any) { return a } declare global { interface Window { a: 1 } }', 'function d9(..._: any[]) {} @d9 class B9 { @d9 x = 1 }', 'const g9 = html<Foo>`\n<b>\n</b>`;', 'let u9: unique symbol; abstract class O9 extends A9 { override m() {} }'],
      jsx: ['/** @jsx h2 */ let j1 = <div a="1\n 2">t &amp; {1}\n  x</div>;', '/** @jsxRuntime automatic */\n/** @jsxImportSource preact */\nlet j2 = <p/>;', 'let j3 = <a.b x:y="q" {...z} k={"<"}>  text {/* c */} &nbsp; {"{"}\n  more\n <></> {htm`\n`}</a.b>;', 'let j4 = <p>{html`<b>\n</b>`}\n html`\n`</p>;'],
      tsx: ['const f8 = <T,>(x: T) => x;', 'const f7 = <T extends unknown>(x: T) => <p<string> a={x as any}>\n{x!}\n</p>;', '/** @jsx h2 */ let j8: JSX.Element = <div/>;'],
    };
    const compile = async (code, loader) => {
      try {
        return { code: (await esbuild.transform(code, { loader, minifyWhitespace: true, charset: 'utf8', legalComments: 'inline', tsconfigRaw: { compilerOptions: { experimentalDecorators: false, verbatimModuleSyntax: false } } })).code };
      } catch (e) {
        return { error: e.errors?.[0]?.text ?? String(e) };
      }
    };
    const fold = (code) => code.replace(/((?:^|[^\w])(?:\w+\.)*(?:html|svg))`((?:[^`\\]|\\[^])*)`/g, (_, tag, s) => `${tag}\`${s.replace(/\\n|\s+/g, '')}\``);
    await ctx.space('code', (function* () {
      const LET = ['let h0 = html`<p\n>\n${1}\n</p>`;', 'const k0 = (a) => a.html`é <b\n>\n</b>`, s0 = svg`\r\n<g/>`;'];
      for (const loader of ['js', 'ts', 'jsx', 'tsx']) {
        const own = [...SNIPPETS.js, ...(loader.startsWith('ts') ? SNIPPETS.ts : []), ...(loader.endsWith('x') ? SNIPPETS.jsx : []), ...(loader === 'tsx' ? SNIPPETS.tsx : [])];
        for (const a of own) for (const t of LET) {
          yield [loader, `${a}\n${t}\n`];
          if (!/^(#!|\uFEFF)/.test(a)) yield [loader, `${t}\n${a}`];
          for (const b of own) if (a !== b && !/^(#!|\uFEFF)/.test(b) && (T || loader === 'js' || loader === 'tsx')) yield [loader, `${a}\n${t}\n${b}\n${LET[0].replace('h0', 'h7')}`];
        }
        yield [loader, own[4]];
      }
    })(), async ([loader, code]) => {
      const before = await compile(code, loader);
      if (before.error !== undefined) {
        ctx.count('invalid');
        return;
      }
      const quiet = console.warn;
      console.warn = () => {};
      let out;
      try {
        out = await built(code, loader);
      } finally {
        console.warn = quiet;
      }
      const after = out === undefined ? before : await compile(out.contents, out.loader ?? loader);
      ctx.count('transitions');
      ctx.outcome(before.code);
      if (after.error !== undefined) return `${code}\nis built into\n${out.contents}\nwhich fails: ${after.error}`;
      if (fold(before.code) !== fold(after.code)) return `${code}\ncompiles to\n${before.code}\nand built into\n${out.contents}\ncompiles to\n${after.code}`;
    });
    // ---- the plugin in a build: files and options
    await ctx.space('builds', (function* () {
      for (const ext of ['js', 'jsx', 'ts', 'tsx', 'mjs']) for (const tagNames of [undefined, ['html'], ['foo'], [], ['foo', 'html']]) for (const tag of ['html', 'foo', 'x.foo', 'svg', 'css', 'htmls', 'fo']) yield [ext, tagNames, tag];
    })(), async ([ext, tagNames, tag]) => {
      const file = path.join(dir, `entry.${ext}`);
      fs.writeFileSync(file, `import { one } from './dep.${ext}';\nexport default (html, svg, css, foo, x, htmls, fo) => [one(html), ${tag}\`<b>\n  x\n</b>\`];\n`);
      fs.writeFileSync(path.join(dir, `dep.${ext}`), 'export const one = (html) => html`<i>\n  y\n</i>`;\n');
      const r = await esbuild.build({ entryPoints: [file], bundle: true, write: false, format: 'esm', plugins: [minifyTemplates(...(tagNames === undefined ? [] : [{ tagNames }]))], logLevel: 'silent' });
      const mod = await import(`data:text/javascript,${encodeURIComponent(r.outputFiles[0].text)}#${Math.random()}`);
      const id = (s) => s.join('|');
      const got = mod.default(id, id, id, id, { foo: id }, id, id);
      const covered = (t) => ext !== 'mjs' && (tagNames ?? ['css', 'html', 'math', 'svg']).includes(t.split('.').at(-1));
      // An uncovered template is left as it is; a covered one has its line breaks next to tags removed.
      for (const [i, t, full] of [[0, 'html', '<i>\n  y\n</i>'], [1, tag, '<b>\n  x\n</b>']]) {
        if (!covered(t) && got[i] !== full) return `${t} in .${ext} with ${tagNames} is ${JSON.stringify(got[i])}`;
        if (covered(t) && got[i].replace(/\s/g, '') !== full.replace(/\s/g, '')) return `${t} in .${ext} with ${tagNames} is ${JSON.stringify(got[i])}`;
        if (covered(t) && got[i] === full) return `${t} in .${ext} with ${tagNames} is not minified`;
      }
      ctx.outcome(got.join());
    });
    esbuild.stop?.();
    ctx.count('states', ctx.distinctSet.size);
  },
};
