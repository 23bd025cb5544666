// Bundles the SDK from /repo's working tree into one script per renderer variant.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';

const REPO = process.env.VERIF_REPO || '/repo';
const TOOLS = '/opt/veriftools/node/node_modules/';

export async function build(outDir) {
  const require = createRequire(TOOLS + 'x.js');
  const esbuild = require('esbuild');
  fs.mkdirSync(outDir, { recursive: true });
  const stubs = {
    // the exports of @react-email/render; only `render` without options gives the rendering itself
    ok: `export const plainTextSelectors = [];
      export const toPlainText = (html) => String(html).replace(/<[^>]*>/g, '').trim();
      export const pretty = async (html) => '<!-- pretty -->' + html;
      export const render = (node, o) => {
        const html = globalThis.__verifRender(node);
        return o?.plainText ? html.then(toPlainText) : o?.pretty ? html.then(pretty) : html;
      };`,
    absent: "throw new Error('Cannot find package @react-email/render');",
  };
  const out = {};
  for (const [name, code] of Object.entries(stubs)) {
    const file = path.join(outDir, `sdk-${name}.js`);
    await esbuild.build({
      entryPoints: [path.join(REPO, 'src/index.ts')],
      bundle: true,
      format: 'iife',
      globalName: '__sdk',
      platform: 'node',
      target: 'node20',
      outfile: file,
      logLevel: 'error',
      absWorkingDir: REPO,
      tsconfigRaw: { compilerOptions: {} },
      plugins: [
        {
          name: 'renderer',
          setup(b) {
            b.onResolve({ filter: /^@react-email\/render$/ }, () => ({ path: 'renderer', namespace: 'stub' }));
            b.onLoad({ filter: /.*/, namespace: 'stub' }, () => ({ contents: code, loader: 'js' }));
          },
        },
      ],
    });
    out[name] = fs.readFileSync(file, 'utf8');
  }
  return out;
}
export const version = () => JSON.parse(fs.readFileSync(path.join(REPO, 'package.json'), 'utf8')).version;
