// Bundles the current working tree of /repo into a scratch directory.
// Only the package's published entry points are imported.
import * as fs from 'node:fs';
import * as os from 'node:os';
import * as path from 'node:path';
import { createRequire } from 'node:module';

export const REPO = process.env.VERIF_REPO ?? '/repo';

const ESBUILD_CANDIDATES = [
  '/opt/veriftools/node/node_modules/esbuild',
  path.join(REPO, 'tools/esbuild-plugin-minify-templates/node_modules/esbuild'),
];

export function loadEsbuild() {
  const require = createRequire(import.meta.url);
  let last;
  for (const candidate of ESBUILD_CANDIDATES) {
    try {
      return require(candidate);
    } catch (e) {
      last = e;
    }
  }
  throw last;
}

const ENTRIES = [
  'src/index.ts',
  'src/addons/hooks.ts',
  'src/addons/router.ts',
  'src/addons/signal.ts',
  'src/addons/update-logger.ts',
  'src/addons/update-profiler.ts',
];

export function makeScratch(prefix) {
  return fs.mkdtempSync(path.join(os.tmpdir(), prefix));
}

export async function bundleLibrary(outDir, { production = false, name = 'barebind.mjs' } = {}) {
  const esbuild = loadEsbuild();
  const entry = ENTRIES.map((f) => `export * from ${JSON.stringify(path.join(REPO, f))};`).join('\n');
  const outfile = path.join(outDir, name);
  await esbuild.build({
    stdin: { contents: entry, resolveDir: REPO, loader: 'ts', sourcefile: 'verif-entry.ts' },
    bundle: true,
    format: 'esm',
    target: 'esnext',
    platform: 'neutral',
    outfile,
    dropLabels: production ? ['DEBUG'] : [],
    treeShaking: true,
    logLevel: 'error',
    sourcemap: 'inline',
  });
  esbuild.stop?.();
  return outfile;
}

export async function bundlePlugin(outDir) {
  const esbuild = loadEsbuild();
  const outfile = path.join(outDir, 'plugin.mjs');
  await esbuild.build({
    entryPoints: [path.join(REPO, 'tools/esbuild-plugin-minify-templates/src/index.ts')],
    bundle: true,
    format: 'esm',
    target: 'esnext',
    platform: 'node',
    outfile,
    external: ['@swc/core', 'esbuild'],
    logLevel: 'error',
  });
  esbuild.stop?.();
  // Resolve @swc/core the way the plugin's own package does.
  const nm = path.join(REPO, 'tools/esbuild-plugin-minify-templates/node_modules');
  fs.symlinkSync(nm, path.join(outDir, 'node_modules'));
  return outfile;
}
