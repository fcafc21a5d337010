<?php
// Values: a small universe chosen so that values collide, sit on representation boundaries, or are almost equal.

class Obj { public function __construct(public int $n = 0) {} }
class ObjB extends Obj {}
class OC { public $x = 1; }     // shorter class name

function show($v, int $d = 0): string {
    switch (true) {
        case is_null($v): return 'null';
        case is_bool($v): return $v ? 'true' : 'false';
        case is_int($v): return $v === PHP_INT_MIN ? 'PHP_INT_MIN' : (string)$v;
        case is_float($v):
            if (is_nan($v)) { return 'NAN'; }
            if (is_infinite($v)) { return $v > 0 ? 'INF' : '-INF'; }
            return var_export($v, true);
        case is_string($v):
            if (strlen($v) > 60) { return 'str(' . strlen($v) . ')' . json_encode(bin2hex(substr($v, 0, 12))); }
            return preg_match('/^[\x20-\x7e]*$/', $v) ? "'" . addslashes($v) . "'" : '"' . addcslashes($v, "\0..\37\"\\\177..\377") . '"';
        case is_array($v):
            if ($d > 4) { return '[...]'; }
            $o = [];
            $i = 0;
            $list = array_is_list($v);
            foreach ($v as $k => $x) {
                if (++$i > 40) { $o[] = '...' . count($v); break; }
                $o[] = ($list ? '' : show($k) . '=>') . show($x, $d + 1);
            }
            return '[' . implode(', ', $o) . ']';
        case is_object($v): return ($v instanceof Obj ? get_class($v) . "({$v->n})" : get_class($v)) . '#' . spl_object_id($v);
        default: return gettype($v) . (is_resource($v) ? get_resource_id($v) : '');
    }
}

/** Exact sameness: identity for objects, bits for floats (all NANs alike), order and keys for arrays. */
function same($a, $b): bool {
    if (is_float($a)) {
        if (!is_float($b)) { return false; }
        if ($a !== $a) { return $b !== $b; }
        return $a === $b && ($a !== 0.0 || fdiv(1.0, $a) === fdiv(1.0, $b));
    }
    if (is_array($a)) {
        if (!is_array($b) || count($a) !== count($b)) { return false; }
        $kb = array_keys($b);
        $i = 0;
        foreach ($a as $k => $v) {
            if ($kb[$i++] !== $k) { return false; }
            if (!same($v, $b[$k])) { return false; }
        }
        return true;
    }
    return $a === $b;
}
/** same() for two lists, fast when they are plainly identical and no float subtlety is possible. */
function same_list(array $a, array $b, bool $floaty): bool {
    if (!$floaty) { return $a === $b; }
    return same($a, $b);
}

/** Reference implementation of "identical, with NAN equal to itself" (Teds\strict_equals). */
function strict_eq($a, $b): bool {
    if (is_float($a)) {
        if (!is_float($b)) { return false; }
        return $a === $b || ($a !== $a && $b !== $b);
    }
    if (is_array($a)) {
        if (!is_array($b) || count($a) !== count($b)) { return false; }
        $kb = array_keys($b);
        $i = 0;
        foreach ($a as $k => $v) {
            if ($kb[$i++] !== $k) { return false; }
            if (!strict_eq($v, $b[$k])) { return false; }
        }
        return true;
    }
    return $a === $b;
}

/** The string as an interned literal. */
function literal(string $t): string {
    static $n = 0;
    if (strlen($t) > 200 || ++$n > 5000) { return $t; }
    return eval('return ' . var_export($t, true) . ';');
}

const EDGE_INTS = [0, 1, -1, 2, 3, 5, 8, -128, -129, 127, 128, 255, 256, -32768, -32769, 32767, 32768, 65535, 65536,
    2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740992, 9007199254740993, -9007199254740993,
    PHP_INT_MAX, PHP_INT_MIN, PHP_INT_MAX - 1, PHP_INT_MIN + 1, 8310, 8311, 8312, 8313, 8314, 8315];
// Adding multiples of this changes only the lowest bits of the product that strict_hash() is made of: the 32 bits used by the hash tables stay the same.
const TWIN = -3855082101439129751;
function wrap_add(int $a, int $b): int {
    $lo = ($a & 0xffffffff) + ($b & 0xffffffff);
    return ((($a >> 32) + ($b >> 32) + ($lo >> 32)) << 32) | ($lo & 0xffffffff);
}
/** An int whose hash collides with that of a small int. */
function gen_twin(Src $s): int {
    $v = $s->int(3);
    for ($k = $s->int(4); $k > 0; $k--) { $v = wrap_add($v, TWIN); }
    return $v;
}

function gen_int(Src $s): int {
    switch ($s->int(8)) {
        case 0: case 1: case 2: return $s->int(8);
        case 3: return -$s->int(4);
        case 4: return $s->range(-300, 300);
        case 5: return EDGE_INTS[$s->int(count(EDGE_INTS))];
        case 6: return $s->chance(1, 2) ? gen_twin($s) : EDGE_INTS[$s->int(count(EDGE_INTS))];
        default:
            // random magnitude
            $bits = $s->int(64);
            $v = ($s->int(1 << 30) << 34) ^ ($s->int(1 << 30) << 8) ^ $s->int(256);
            return $v >> $bits;
    }
}
const EDGE_FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.0, 3.0, 127.0, 128.0, 1e10, -1e10, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0,
    9223372036854775807.0, -9223372036854775808.0, 1e300, -1e300, 5e-324, INF, -INF, NAN, 1.1, 2.2250738585072014e-308, 18446744073709551616.0, 4294967296.0, 2147483647.0];
function gen_float(Src $s): float {
    switch ($s->int(4)) {
        case 0: return (float)$s->range(-3, 6);
        case 1: case 2: return EDGE_FLOATS[$s->int(count(EDGE_FLOATS))];
        default: return ($s->int(20001) - 10000) / 8;
    }
}
const STRS = ['a', '', 'b', 'aa', 'ab', 'ba', '0', '1', '10', '9', '0a', '1b', '1e1', '10.0', ' 1', '-1', "\0", "a\0", "a\0b", "\x7f", "\x80", "\xff", "\xff\xff",
    'A', 'Z', 'null', 'INF', 'NAN', '9223372036854775807', '9223372036854775808', '00', '-0', '0.0',
    'Ez', 'FY', 'EzEz', 'EzFY', 'FYEz'];    // the last five: two groups of equal hashes
function gen_str(Src $s): string {
    switch ($s->int(7)) {
        case 0: case 1: case 2: case 3: $r = STRS[$s->int(count(STRS))]; break;
        case 4:
            $r = '';
            for ($n = $s->int(5); $n > 0; $n--) { $r .= "ab\0\xff0"[$s->int(5)]; }
            break;
        case 5: $r = str_repeat('x', $s->pick([1, 7, 8, 15, 16, 17, 31, 32, 251, 252, 253, 254, 255, 256, 257])) . ['', 'a', "\0"][$s->int(3)]; break;
        default: $r = (string)gen_int($s); break;
    }
    // non-interned copy so that identical strings live at different addresses
    return $s->chance(1, 2) ? vprobe_fresh_string($r) : $r;
}

/** The same array as an immutable one (as opcache makes of constants), if it can be constant. */
function immutable(array $a): array {
    static $cache = [];
    $u = array_values($a);
    // a resource is serialized as the int 0, which would mistake it for one
    $bad = false;
    array_walk_recursive($u, function ($v) use (&$bad) { $bad = $bad || !is_scalar($v) && $v !== null || is_float($v) && $v !== $v; });
    if ($bad) { return $a; }
    try { $key = serialize($u) . '|' . serialize(array_keys($a)); } catch (Throwable) { return $a; }
    if (strlen($key) > 2000 || str_contains($key, 'O:') || str_contains($key, 'R:')) { return $a; }
    return $cache[$key] ??= vprobe_immutable($a) ?? $a;
}
/** Per-case pool of values. */
final class Pool {
    public array $vals = [];
    public bool $floaty = false;
    /** kinds: n(ull/bool) b(ool) i(nt) f(loat) s(tring) a(rray) o(bject) r(esource) */
    public function __construct(public Src $s, public string $kinds = 'niiffssaaoo', int $max = 10, bool $nan = true) {
        $this->nan = $nan;
        $n = 1 + $s->int($max);
        for ($i = 0; $i < $n; $i++) {
            $s->mark();
            $this->vals[] = $this->fresh();
        }
    }
    public bool $nan;
    /** Only the values in $vals, never new ones. */
    public bool $fixed = false;
    /** Makes a value that the pool does not keep; null: take one from the pool. */
    public ?Closure $maker = null;
    public array $objs = [];
    private function scan(): void {}
    public function fresh(int $depth = 0) {
        $s = $this->s;
        $k = $this->kinds[$s->int(strlen($this->kinds))];
        switch ($k) {
            case 'n': return [null, false, true][$s->int(3)];
            case 'b': return [false, true][$s->int(2)];
            case 'i': return gen_int($s);
            case 'f':
                $f = gen_float($s);
                if ($f !== $f && !$this->nan) { $f = 0.25; }
                $this->floaty = true;
                return $f;
            case 's': return gen_str($s);
            case 'a': return $this->arr($depth);
            case 'o':
                if ($this->objs && $s->int(3) === 0) { return $this->objs[$s->int(count($this->objs))]; }
                $c = $s->int(4);
                $o = $c < 2 ? new Obj(count($this->objs)) : ($c === 2 ? new ObjB(count($this->objs)) : new OC());
                return $this->objs[] = $o;
            case 'r':
                $m = fopen('php://memory', 'r');
                return $m;
        }
        return 0;
    }
    private function arr(int $depth): array {
        $s = $this->s;
        $n = $s->int($depth > 1 ? 2 : 4);
        $shape = $s->int(5);
        $r = [];
        for ($i = 0; $i < $n; $i++) {
            $v = $depth < 2 ? $this->fresh($depth + 1) : $s->int(3);
            switch ($shape) {
                case 0: case 1: case 2: $r[] = $v; break;
                case 3: $r[$s->pick([0, 1, 2, 5, -1, 'a', 'b', '', '10', PHP_INT_MAX, 'aa'])] = $v; break;
                case 4: $r['k' . $i] = $v; break;
            }
        }
        if ($shape === 3 && $s->int(3) === 2) { return immutable($r); }
        if ($shape === 1 && $n > 1) { unset($r[0]); }          // packed with a hole
        if ($shape === 2 && $n > 0) { $x = $r[0]; $r[0] = &$x; }  // holds a reference
        return $r;
    }
    /** A value already in the pool, mostly; sometimes an equal but separate copy; sometimes new. */
    public function any() {
        $s = $this->s;
        if ($this->maker) { $v = ($this->maker)(); if ($v !== null) { return $v; } }
        if ($this->fixed) { return $this->vals[$s->int(count($this->vals))]; }
        switch ($s->int(10)) {
            case 9: return $this->fresh();
            case 8: return fresh_copy($this->vals[$s->int(count($this->vals))]);
            default: return $this->vals[$s->int(count($this->vals))];
        }
    }
    /** Something close to but usually different from a pool value. */
    public function near() {
        $v = $this->vals[$this->s->int(count($this->vals))];
        switch (true) {
            case is_int($v): return [(float)$v, (string)$v, $v === PHP_INT_MAX ? $v : $v + 1, $v === 0 ? false : ($v === 1 ? true : -$v)][$this->s->int(4)];
            case is_float($v): $this->floaty = true; return [-$v, is_finite($v) && abs($v) < 1e18 ? (int)$v : 7, (string)$v][$this->s->int(3)];
            case is_string($v): return [$v . 'a', $v . "\0", (int)$v, strrev($v)][$this->s->int(4)];
            case is_array($v): return [array_reverse($v, true), array_merge($v, [1]), array_values($v), $v ? array_slice($v, 1, null, true) : [[]]][$this->s->int(4)];
            case is_object($v): return clone $v;
            case is_null($v): return [false, 0, '', []][$this->s->int(4)];
            default: return [null, !$v, (int)$v, (string)$v][$this->s->int(4)];
        }
    }
    public function probe() { return $this->s->int(4) === 3 ? $this->near() : $this->any(); }
}

function fresh_copy($v) {
    if (is_string($v)) { return vprobe_fresh_string($v); }
    if (is_array($v)) {
        $r = [];
        foreach ($v as $k => $x) { $r[$k] = fresh_copy($x); }
        return $r;
    }
    return $v;
}

/** Runs $f; returns ['ok', value] or [exception class, message]. */
function attempt(Closure $f): array {
    $c = $GLOBALS['CTX'];
    if ($c && $c->live) { fwrite($c->live, "(running) {$c->doing}\n"); }
    try {
        return ['ok', $f()];
    } catch (Fail | Discard $e) {
        throw $e;
    } catch (Throwable $t) {
        return [get_class($t), $t->getMessage()];
    }
}

function show_outcome(array $o): string { return $o[0] === 'ok' ? show($o[1]) : "throws {$o[0]}" . (isset($o[1]) && is_string($o[1]) ? "({$o[1]})" : ''); }

/** Expected outcome $e (['ok', v] or [class]) against the actual one. */
function expect_outcome(Ctx $c, string $what, array $e, array $a): void {
    if (($e[0] !== $a[0] && ($e[0] === 'ok' || $a[0] === 'ok' || !is_a($a[0], $e[0], true))) || ($e[0] === 'ok' && !same($e[1], $a[1]))) {
        $c->fail("$what: expected " . show_outcome($e) . ', got ' . show_outcome($a));
    }
}
