<?php
// Reference model for maps and sets with unique keys: canon(key) => [key, value], insertion-ordered or sorted on demand.

const MAP_CLASSES = [Teds\StrictHashMap::class, Teds\StrictTreeMap::class, Teds\StrictSortedVectorMap::class];
const SET_CLASSES = [Teds\StrictHashSet::class, Teds\StrictTreeSet::class, Teds\StrictSortedVectorSet::class];

function is_sorted_class(string $cls): bool { return !str_contains($cls, 'Hash'); }

final class MapModel {
    /** @var array<string, array{0: mixed, 1: mixed}> */
    public array $e = [];
    private ?array $order = null;
    public function __construct(public bool $sorted) {}
    public function put($k, $v): bool {
        $c = canon($k);
        if (isset($this->e[$c])) { $this->e[$c][1] = $v; $this->order = null; return false; }
        $this->e[$c] = [$k, $v];
        $this->order = null;
        return true;
    }
    public function del($k): bool {
        $c = canon($k);
        if (!isset($this->e[$c])) { return false; }
        unset($this->e[$c]);
        $this->order = null;
        return true;
    }
    public function has($k): bool { return isset($this->e[canon($k)]); }
    public function get($k) { return $this->e[canon($k)][1] ?? null; }
    public function clear(): void { $this->e = []; $this->order = null; }
    /** @return list<array{0: mixed, 1: mixed}> */
    public function pairs(): array {
        if ($this->order === null) {
            $this->order = array_values($this->e);
            if ($this->sorted) { usort($this->order, fn($a, $b) => ref_compare($a[0], $b[0])); }
        }
        return $this->order;
    }
    public function keys(): array { return array_column($this->pairs(), 0); }
    public function vals(): array { return array_map(fn($p) => $p[1], $this->pairs()); }
}

/** Keys must be the same up to the sign of zero: which of 0.0 and -0.0 represents the key is not specified. */
function same_keys(array $a, array $b): bool {
    if ($a === $b) { return true; }
    if (count($a) !== count($b)) { return false; }
    foreach ($a as $i => $k) {
        if (!array_key_exists($i, $b) || canon($k) !== canon($b[$i])) { return false; }
    }
    return true;
}

final class MapMachine {
    public $o;
    public MapModel $m;
    public bool $set;
    public bool $sorted;
    public int $big = 0;
    /** @var object[] further instances given the same history */
    public array $twins = [];
    public function __construct(public Src $s, public Ctx $c, public string $cls, public Pool $keys, public Pool $pool) {
        $this->set = str_ends_with($cls, 'Set');
        $this->sorted = is_sorted_class($cls);
        $this->m = new MapModel($this->sorted);
    }
    public function genPairs(int $max): array {
        $n = $this->s->size($max);
        $r = [];
        for ($i = 0; $i < $n; $i++) { $k = $this->key(); $r[] = [$k, $this->set ? $k : $this->pool->any()]; }
        return $r;
    }
    public function key() {
        if ($this->big && $this->s->chance(3, 4)) { return $this->s->int($this->big) * ($this->big > 50 ? 1 : 8); }
        return $this->keys->any();
    }
    public function probeKey() {
        if ($this->s->int(3) > 0 && $this->m->e) {
            $ks = array_column($this->m->e, 0);
            return fresh_copy($ks[$this->s->int(count($ks))]);
        }
        return $this->s->chance(1, 3) ? $this->keys->near() : $this->key();
    }
    public function construct(): void {
        $s = $this->s; $c = $this->c; $cls = $this->cls;
        if ($s->chance(1, 4)) { $this->big = $s->pick([12, 40, 150, 600]); }
        $pairs = $this->genPairs($s->chance(1, 8) ? 200 : 24);
        if ($this->set) {
            [$src, $d] = make_value_source($s, array_column($pairs, 0));
            $how = 'new';
        } else {
            switch ($s->int(3)) {
                case 0:
                    [$src, $d] = make_source($s, $pairs);
                    $how = 'new';
                    break;
                case 1:
                    [$src, $d] = make_value_source($s, $pairs);
                    $how = 'fromPairs';
                    break;
                default:
                    // keys an array can have, so that arrays are used as sources too
                    $arr = [];
                    foreach ($pairs as [$k, $v]) { $arr[is_int($k) || is_string($k) ? $k : count($arr)] = $v; }
                    $pairs = [];
                    foreach ($arr as $k => $v) { $pairs[] = [$k, $v]; }
                    [$src, $d] = make_source($s, $pairs, $s->chance(1, 2) ? 'array' : null);
                    $how = 'new';
            }
        }
        if ($c->verbose) { $c->say("\$o = $how $cls($d of " . show($this->set ? array_column($pairs, 0) : $pairs) . ')'); }
        $c->doing = "$how $cls($d)";
        $mk = attempt(fn() => !$pairs && $s->chance(1, 2) ? new $cls() : ($how === 'new' ? new $cls($src) : $cls::fromPairs($src)));
        if ($mk[0] !== 'ok') { $c->fail("$how $cls($d): " . show_outcome($mk)); }
        $this->o = $mk[1];
        unset($mk);
        if ($s->int(5) === 4) { [$this->o, $d] = rebirth($s, $this->o); $c->say("\$o: $d"); }
        foreach ($pairs as [$k, $v]) { $this->m->put($k, $v); }
        $this->check('construct');
    }

    public function step(): void {
        $s = $this->s; $c = $this->c; $o = $this->o; $m = $this->m; $cls = $this->cls;
        $c->ops++;
        $n = count($m->e);
        $ops = ['put' => 14, 'del' => 9, 'has' => 4, 'clear' => 1, 'clone' => 2, 'iter' => 2, 'views' => 2, 'bulk' => 2, 'bulkdel' => 2, 'churn' => 2, 'roundtrip' => 1];
        if (!$this->set) { $ops += ['overwrite' => 5, 'get' => 4, 'isset' => 3, 'contains' => 2, 'append' => 1]; }
        if ($this->sorted) { $ops += ['ends' => 3, 'pop' => 4, 'shift' => 4, 'drain' => 1]; }
        $op = $s->pickw($ops);
        $say = &$c->doing;
        $say = $op;
        $exp = ['ok', null];
        $act = ['ok', null];
        $v_ = $c->verbose;
        switch ($op) {
            case 'put':
            case 'overwrite':
                $k = $op === 'put' ? $this->key() : $this->probeKey();
                $v = $this->set ? null : $this->pool->any();
                if ($this->set) {
                    $say = 'add(' . ($v_ ? show($k) : '') . ')';
                    $act = attempt(fn() => $o->add($k));
                    $exp = ['ok', $m->put($k, $k)];
                } else {
                    $say = '[' . ($v_ ? show($k) : '') . '] = ' . ($v_ ? show($v) : '');
                    $act = $s->chance(1, 2) ? attempt(fn() => $o->offsetSet($k, $v)) : attempt(function () use ($o, $k, $v) { $o[$k] = $v; });
                    $m->put($k, $v);
                }
                break;
            case 'del':
                $k = $this->probeKey();
                $say = 'remove ' . ($v_ ? show($k) : '');
                if ($this->set) {
                    $act = attempt(fn() => $o->remove($k));
                    $exp = ['ok', $m->del($k)];
                } else {
                    $act = $s->chance(1, 2) ? attempt(fn() => $o->offsetUnset($k)) : attempt(function () use ($o, $k) { unset($o[$k]); });
                    $m->del($k);
                }
                break;
            case 'has':
                $k = $this->probeKey();
                $say = ($this->set ? 'contains ' : 'containsKey ') . ($v_ ? show($k) : '');
                $act = attempt(fn() => $this->set ? $o->contains($k) : $o->containsKey($k));
                $exp = ['ok', $m->has($k)];
                break;
            case 'get':
                $k = $this->probeKey();
                $say = 'get ' . ($v_ ? show($k) : '');
                $d = $this->pool->any();
                $how = $s->int(5);
                $act = match ($how) {
                    0 => attempt(fn() => $o[$k]), 1 => attempt(fn() => $o->offsetGet($k)), 2 => attempt(fn() => $o->get($k)),
                    3 => attempt(fn() => $o->get($k, $d)), 4 => attempt(fn() => $o[$k] ?? $d),
                };
                if ($m->has($k)) { $exp = ['ok', $how === 4 ? $m->get($k) ?? $d : $m->get($k)]; }
                else { $exp = $how >= 3 ? ['ok', $d] : [OOB]; }
                break;
            case 'isset':
                $k = $this->probeKey();
                $say = 'isset/empty/offsetExists ' . ($v_ ? show($k) : '');
                $act = attempt(fn() => [isset($o[$k]), empty($o[$k]), $o->offsetExists($k)]);
                $x = $m->get($k);
                $exp = ['ok', [isset($x), empty($x), isset($x)]];
                break;
            case 'contains':
                $v = no_nested_nan($this->pool->probe());
                $say = 'contains value ' . ($v_ ? show($v) : '');
                $act = attempt(fn() => [$o->contains($v), @$o->containsValue($v)]);
                $c->takeWarnings();          // containsValue() is deprecated on some classes
                $x = in_array($v, $m->vals(), true);
                $exp = ['ok', [$x, $x]];
                break;
            case 'append':
                $say = '[] = 1';
                $act = attempt(function () use ($o) { $o[] = 1; });
                $exp = ['RuntimeException'];
                break;
            case 'clear':
                $say = 'clear()';
                $act = attempt(fn() => $o->clear());
                $m->clear();
                break;
            case 'clone':
                $say = '$o = clone $o, original changed';
                $old = $o;
                $this->o = clone $old;
                if ($s->chance(1, 2)) { $old->clear(); }
                else {
                    $k = $this->probeKey();
                    if ($this->set) { $old->remove($k); $old->add($this->key()); } else { unset($old[$k]); $old[$this->key()] = 1; }
                }
                unset($old);
                break;
            case 'roundtrip':
                $say = '$o = unserialize(serialize($o)) when free of objects';
                if ($n < 60 && !has_object($m->e)) { $this->o = unserialize(serialize($o)); }
                break;
            case 'iter':
                $say = 'foreach';
                $ks = $vs = [];
                foreach ($o as $k => $v) { $ks[] = $k; $vs[] = $v; }
                $this->expectKeys($say, $this->set ? $vs : $ks);
                if (!$this->set) { $act = ['ok', $vs]; $exp = ['ok', $m->vals()]; }
                break;
            case 'views':
                $this->views();
                break;
            case 'bulk':
                // many inserts in one direction
                $k = $s->int($n > 300 ? 10 : 80);
                $st = $s->int(200);
                $dir = $s->pick([1, -1, 7, -8]);
                $say = "insert $k ints from $st step $dir";
                for ($i = 0; $i < $k; $i++) {
                    $key = $st + $i * $dir;
                    if ($this->set) { if ($o->add($key) !== $m->put($key, $key)) { $c->fail("add($key) returned the wrong bool"); } }
                    else { $o[$key] = $i; $m->put($key, $i); }
                }
                break;
            case 'bulkdel':
                $ks = $m->keys();
                $k = $s->int(count($ks) + 1);
                $from = $s->int(count($ks) + 1);
                $mode = $s->int(3);
                $say = "remove $k keys from position $from mode $mode";
                for ($i = 0; $i < $k; $i++) {
                    $at = $mode === 0 ? $from + $i : ($mode === 1 ? $from - $i : $from + 2 * $i);
                    if (!isset($ks[$at])) { continue; }
                    $key = $ks[$at];
                    if ($this->set) { if ($o->remove($key) !== $m->del($key)) { $c->fail("remove returned the wrong bool"); } }
                    else { unset($o[$key]); $m->del($key); }
                }
                break;
            case 'churn':
                // add at one end, remove at the other: the live window moves
                $k = $s->int(60);
                $st = $s->int(50);
                $w = 1 + $s->int(9);
                $say = "churn $k ints from $st window $w";
                for ($i = 0; $i < $k; $i++) {
                    $key = $st + $i;
                    $old = $key - $w;
                    if ($this->set) {
                        if ($o->add($key) !== $m->put($key, $key)) { $c->fail("add($key) returned the wrong bool"); }
                        if ($o->remove($old) !== $m->del($old)) { $c->fail("remove($old) returned the wrong bool"); }
                    } else { $o[$key] = $i; $m->put($key, $i); unset($o[$old]); $m->del($old); }
                }
                break;
            case 'ends':
                $say = 'first/last';
                if ($this->set) {
                    foreach (['first', 'bottom', 'last', 'top'] as $i => $f) {
                        $a = attempt(fn() => $o->$f());
                        if (!$n) { expect_outcome($c, "$f()", [UNDERFLOW], $a); continue; }
                        $ks = $m->keys();
                        if ($a[0] !== 'ok' || canon($a[1]) !== canon($ks[$i < 2 ? 0 : $n - 1])) { $c->fail("$f() gives " . show_outcome($a) . ', expected ' . show($ks[$i < 2 ? 0 : $n - 1])); }
                    }
                } else {
                    foreach (['first', 'bottom', 'last', 'top', 'firstKey', 'bottomKey', 'lastKey', 'topKey'] as $i => $f) {
                        $a = attempt(fn() => $o->$f());
                        if (!$n) { expect_outcome($c, "$f()", [UNDERFLOW], $a); continue; }
                        $p = $m->pairs()[$i % 4 < 2 ? 0 : $n - 1];
                        $ok = $a[0] === 'ok' && ($i < 4 ? same($p[1], $a[1]) : canon($p[0]) === canon($a[1]));
                        if (!$ok) { $c->fail("$f() gives " . show_outcome($a) . ', expected ' . show($p[$i < 4 ? 1 : 0])); }
                    }
                }
                break;
            case 'pop':
            case 'shift':
                $f = $op === 'pop' ? 'pop' : $s->pick(['shift', 'popFront']);
                $say = "$f()";
                $a = attempt(fn() => $o->$f());
                $this->expectPopped($f, $a, $op === 'pop');
                $act = $exp = ['ok', null];
                break;
            case 'drain':
                $say = 'drain';
                $f = $s->pick(['pop', 'shift']);
                for ($i = $s->int($n + 1); $i > 0; $i--) { $this->expectPopped($f, attempt(fn() => $o->$f()), $f === 'pop'); }
                break;
            default: throw new LogicException($op);
        }
        if ($v_) { $c->say($say . '  -> ' . show_outcome($act)); }
        if ($n > 1) { $c->nt(); }
        expect_outcome($c, "$cls: $say", $exp, $act);
        $this->check($say);
    }
    public function expectPopped(string $f, array $a, bool $end): void {
        $ps = $this->m->pairs();
        if (!$ps) { expect_outcome($this->c, "$f()", [UNDERFLOW], $a); return; }
        [$k, $v] = $end ? $ps[count($ps) - 1] : $ps[0];
        $ok = $a[0] === 'ok' && ($this->set ? canon($a[1]) === canon($k) : is_array($a[1]) && array_keys($a[1]) === [0, 1] && canon($a[1][0]) === canon($k) && same($a[1][1], $v));
        if (!$ok) { $this->c->fail("$f() gives " . show_outcome($a) . ', expected ' . show($this->set ? $k : [$k, $v])); }
        $this->m->del($k);
    }
    public function expectKeys(string $what, array $ks): void {
        $w = $this->m->keys();
        if (!same_keys($w, $ks)) { $this->c->fail("$what: keys " . show($ks) . ', expected ' . show($w)); }
    }
    public function views(): void {
        $o = $this->o; $c = $this->c; $m = $this->m;
        $n = count($m->e);
        $it = $o->getIterator();
        $ks = $vs = [];
        for ($it->rewind(); $it->valid(); $it->next()) { $ks[] = $it->key(); $vs[] = $it->current(); }
        $this->expectKeys('getIterator()', $ks);
        if ($this->set) { $this->expectKeys('getIterator()', $vs); }
        else {
            expect_outcome($c, 'getIterator()', ['ok', $m->vals()], ['ok', $vs]);
            $ps = $o->toPairs();
            $this->expectKeys('toPairs()', array_column($ps, 0));
            expect_outcome($c, 'toPairs()', ['ok', $m->vals()], ['ok', array_map(fn($p) => $p[1], $ps)]);
        }
        $c->takeWarnings();
        $a = attempt(fn() => $o->toArray());
        $w1 = count($c->takeWarnings());
        $e = attempt(function () use ($m) { $r = []; foreach ($m->pairs() as [$k, $v]) { $r[$k] = $v; } return $r; });
        $w2 = count($c->takeWarnings());
        if ($e[0] !== 'ok') { $e = ['TypeError']; }
        if ($this->set && $e[0] === 'ok' && $a[0] === 'ok') {
            if (array_keys($e[1]) !== array_keys($a[1])) { $c->fail('toArray() gives ' . show($a[1]) . ', expected ' . show($e[1])); }
            if (!same_keys(array_values($e[1]), array_values($a[1]))) { $c->fail('toArray() gives ' . show($a[1]) . ', expected ' . show($e[1])); }
        } else { expect_outcome($c, 'toArray()', $e, $a); }
        if ($w1 !== $w2) { $c->fail("toArray() raised $w1 diagnostics, an array built the same way raises $w2"); }
    }
    public function check(string $what): void {
        $o = $this->o; $m = $this->m; $c = $this->c;
        $n = count($m->e);
        if (count($o) !== $n || $o->count() !== $n || $o->isEmpty() !== ($n === 0)) { $c->fail("after $what: count() is " . count($o) . ", expected $n"); }
        if ($this->set) {
            $vs = $o->values();
            if (!array_is_list($vs) || !same_keys($m->keys(), $vs)) { $c->fail("after $what: values " . show($vs) . ', expected ' . show($m->keys())); }
        } else {
            $ks = $o->keys();
            if (!array_is_list($ks) || !same_keys($m->keys(), $ks)) { $c->fail("after $what: keys " . show($ks) . ', expected ' . show($m->keys())); }
            $vs = $o->values();
            $w = $m->vals();
            if ($vs !== $w || $this->pool->floaty) { if (!same($w, $vs)) { $c->fail("after $what: values " . show($vs) . ', expected ' . show($w)); } }
        }
    }
}
