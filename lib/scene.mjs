// Shared vocabulary for building trees from JSON specs and observing the DOM.

/** Serialises what a user can observe of a subtree.  The data of comments is
 * dropped: comments are placeholders and never visible. */
export function ser(node, opts) {
  let s = '';
  for (let n = node.firstChild; n !== null; n = n.nextSibling) s += serNode(n, opts);
  return s;
}

export function serNode(n, opts) {
  switch (n.nodeType) {
    case 1: {
      let s = `<${n.localName}`;
      if (n.attributes.length > 0) {
        for (const name of n.getAttributeNames().sort()) s += ` ${name}=${JSON.stringify(n.getAttribute(name))}`;
      }
      if (opts?.ns) s += ` {${n.namespaceURI}}`;
      return s + '>' + ser(n, opts) + '</>';
    }
    case 3:
      return JSON.stringify(n.data);
    case 8:
      return opts?.noComments ? '' : '<!>';
    default:
      return `<?${n.nodeType}>`;
  }
}

/** Vocabulary of static and dynamic templates, each at one call site. */
export function makeVocabulary(B, extra = () => ({})) {
  const { html, createComponent, createFragment, createPortal } = B;
  const Pass = createComponent(function Pass({ child }) {
    return child;
  });
  const Pass2 = createComponent(function Pass2({ child }) {
    return child;
  });
  const PassList = createComponent(function PassList({ children }) {
    return children;
  });
  const templates = {
    a: () => html`<a></a>`,
    b: () => html`<b>B</b>`,
    p: () => html`<p>x</p><q></q>`,
    e: () => html``,
    s: () => html`text`,
    w: (c) => html`<u><${c}></u>`,
    h: (c) => html`<${c}>`,
    hh: (c, d) => html`<${c}><${d}>`,
    x: (c) => html`<${c}><hr>`,
    y: (c) => html`<hr><${c}>`,
    z: (c, d) => html`<em></em><${c}>mid<${d}><i></i>`,
    t: (c) => html`<s>${c}</s>`,
    n: (c, d) => html`<ul><li><${c}></li><${d}></ul>`,
    ...extra(B),
  };
  // With `env.shared`, equal specs give one and the same value.
  function build(spec, env) {
    if (spec === null || typeof spec !== 'object') return spec;
    if (env?.shared === undefined) return make(spec, env);
    const key = JSON.stringify(spec);
    if (!env.shared.has(key)) env.shared.set(key, make(spec, env));
    return env.shared.get(key);
  }
  function make(spec, env) {
    if (!Array.isArray(spec)) throw new Error('bad spec ' + JSON.stringify(spec));
    const [op, ...rest] = spec;
    switch (op) {
      case 'f':
        return rest.map((c) => build(c, env));
      case 'F':
        return createFragment(rest.map((c) => build(c, env)));
      case 'k': {
        const inner = build(rest[1], env);
        return toNode(inner).withKey(rest[0]);
      }
      case 'c':
        return Pass({ child: build(rest[0], env) });
      case 'd':
        return Pass2({ child: build(rest[0], env) });
      case 'l':
        return PassList({ children: rest.map((c) => build(c, env)) });
      case 'o':
        return createPortal(build(rest[1], env), env.portals[rest[0]]);
      default: {
        const t = templates[op];
        if (t === undefined) throw new Error('bad spec ' + JSON.stringify(spec));
        return t(...rest.map((c) => build(c, env)));
      }
    }
  }
  function toNode(value) {
    if (value !== null && typeof value === 'object' && typeof value.withKey === 'function') return value;
    if (Array.isArray(value)) return createFragment(value);
    return B.createBind(value);
  }
  return { build, templates, Pass, Pass2 };
}

export function makeEnv() {
  const container = document.createElement('div');
  const portals = [document.createElement('section'), document.createElement('section')];
  return { container, portals };
}

export function observe(env, opts) {
  return [ser(env.container, opts), ...env.portals.map((p) => ser(p, opts))].join('|');
}
