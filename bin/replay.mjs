// Performs the scripts of a replay file again on the current code and prints
// the differences: node bin/replay.mjs evidence/replay/C02.json [n]
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { build, version } from '../harness/build.mjs';

const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
const file = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-replay-'));
try {
  await build(path.join(tmp, 'b'));
  const list = process.argv[3] ? [file.differences[Number(process.argv[3])]] : file.differences;
  fs.writeFileSync(path.join(tmp, 's'), list.map((d) => `${JSON.stringify(d.script)}\n`).join(''));
  const tr = path.join(tmp, 't');
  spawnSync(process.execPath, ['--no-warnings', path.join(ROOT, 'harness/run.mjs'), path.join(tmp, 's'), tr, path.join(tmp, 'b'), version(), String(list[0].seed ?? file.seed)], { stdio: 'inherit' });
  if (process.env.SHOW) console.log(fs.readFileSync(tr, 'utf8'));
  const r = spawnSync('java', ['-XX:+UseSerialGC', '-Xss64m', '-Xmx3g', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
    'tlc2.TLC', '-noGenerateSpecTE', '-metadir', path.join(tmp, 'm'), '-workers', '1', '-config', 'Trace.cfg', 'Trace.tla'],
  { cwd: path.join(ROOT, 'spec'), env: { ...process.env, TRACE: tr }, encoding: 'utf8', maxBuffer: 1 << 28 });
  const mm = r.stdout.split('\n').filter((l) => l.startsWith('"MM')).map((l) => JSON.parse(l).slice(3));
  console.log(mm.join('\n') || 'no differences');
} finally {
  fs.rmSync(tmp, { recursive: true, force: true });
}
