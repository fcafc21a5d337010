<?php
// Worker process. Modes:
//  run   PROP SEED WORKER FROM TO OUT BUDGET VARIANT  random cases FROM..TO-1; statistics to OUT.json, hashes to OUT.bin
//  trace PROP SEED WORKER CASE OUT VARIANT            one case, every draw appended to OUT.draws at once
//  try   PROP CANDIDATES OUT VARIANT                  replays candidates until one fails; OUT.draws / OUT.json
error_reporting(E_ALL);
ini_set('zend.exception_ignore_args', '1');
gc_disable();
require __DIR__ . '/core.php';
require __DIR__ . '/all.php';
$mode = $argv[1];
$id = $argv[2];
/** @var Closure $prop */
$prop = require dirname(__DIR__) . "/props/$id.php";

function put(string $file, $data): void {
    file_put_contents($file . '.tmp', json_encode($data, JSON_PARTIAL_OUTPUT_ON_ERROR | JSON_INVALID_UTF8_SUBSTITUTE));
    rename($file . '.tmp', $file);
}

if ($mode === 'run') {
    [, , , $seed, $worker, $from, $to, $out, $budget, $variant] = $argv;
    $labels = [];
    $n = $nt = $ops = 0;
    $seen = [];
    $mark = fopen($out . '.mark', 'w');
    stream_set_write_buffer($mark, 0);
    $t0 = microtime(true);
    $fail = null;
    $trunc = false;
    $cpu = fn() => ($u = getrusage())['ru_utime.tv_sec'] + $u['ru_stime.tv_sec'] + ($u['ru_utime.tv_usec'] + $u['ru_stime.tv_usec']) / 1e6;
    $last = $cpu();
    $slow = [0.0, -1];
    for ($i = (int)$from; $i < (int)$to; $i++) {
        fseek($mark, 0);
        fwrite($mark, sprintf('%-12d', $i));
        if (($i & 15) === 0 && microtime(true) - $t0 > (float)$budget) { $trunc = true; break; }
        $s = Src::random("$id|$seed|$worker|$i");
        $c = new Ctx();
        $c->variant = $variant;
        $msg = run_case($prop, $s, $c);
        $now = $cpu();
        if ($now - $last > $slow[0]) { $slow = [$now - $last, $i]; }
        $last = $now;
        $n++;
        $ops += $c->ops;
        foreach ($c->labels as $k => $v) { $labels[$k] = ($labels[$k] ?? 0) + $v; }
        if ($msg !== null) { $fail = ['case' => $i, 'msg' => $msg, 'log' => $s->log, 'marks' => $s->marks]; break; }
        if ($c->nontrivial) {
            $nt++;
            $seen[substr(hash('xxh64', implode(',', $s->log), true), 0, 8)] = true;
        }
        unset($s, $c);
    }
    file_put_contents($out . '.bin', implode('', array_map('strval', array_keys($seen))) );
    // integer-like keys are impossible to tell apart from strings of digits of length 8, both are 8 bytes
    put($out . '.json', ['n' => $n, 'nt' => $nt, 'ops' => $ops, 'labels' => $labels, 'fail' => $fail, 'trunc' => $trunc, 'slow' => $slow]);
    fwrite(STDOUT, "done\n");
    exit(0);
}
if ($mode === 'trace') {
    [, , , $seed, $worker, $case, $out, $variant] = $argv;
    $fh = fopen($out . '.draws', 'w');
    stream_set_write_buffer($fh, 0);
    $s = Src::random("$id|$seed|$worker|$case");
    $s->trace($fh);
    $c = new Ctx();
    $c->variant = $variant;
    $c->verbose = true;
    $c->live = fopen($out . '.lines', 'w');
    stream_set_write_buffer($c->live, 0);
    $msg = run_case($prop, $s, $c);
    put($out . '.json', ['msg' => $msg, 'log' => $s->log, 'marks' => $s->marks, 'lines' => $c->lines, 'nt' => $c->nontrivial]);
    exit(0);
}
if ($mode === 'try') {
    [, , , $cand, $out, $variant] = $argv;
    $list = json_decode(file_get_contents($cand), true);
    foreach ($list as $i => $choices) {
        $fh = fopen($out . '.draws', 'w');
        stream_set_write_buffer($fh, 0);
        fwrite($fh, "c$i\n");
        $s = Src::replay($choices);
        $s->trace($fh);
        $c = new Ctx();
        $c->variant = $variant;
        $c->verbose = true;
        $c->live = fopen($out . '.lines', 'w');
        stream_set_write_buffer($c->live, 0);
        $msg = run_case($prop, $s, $c);
        fclose($fh);
        if ($msg !== null) {
            put($out . '.json', ['i' => $i, 'msg' => $msg, 'log' => $s->log, 'marks' => $s->marks, 'lines' => $c->lines]);
            exit(0);
        }
        unset($s, $c);
    }
    put($out . '.json', ['i' => null, 'msg' => null]);
    exit(0);
}
