<?php
// Reference model for list-like collections: a plain PHP list.

const OOB = 'OutOfBoundsException';
const UNDERFLOW = 'UnderflowException';

final class SeqSpec {
    public function __construct(
        public string $class,
        public Closure $elem,              // fn(): value that may be stored
        public ?Closure $bad = null,       // fn(): value that must be rejected with TypeError
        public bool $mapFilter = false,
        public bool $setSize = false,
        public bool $reserve = false,
        public bool $hasCap = true,
        public bool $fixed = false,        // immutable
    ) {}
}

final class SeqMachine {
    public array $m = [];
    public $o;
    public int $maxSize = 0;
    public function __construct(public Src $s, public Ctx $c, public SeqSpec $spec, public Pool $pool) {}

    public function vals(int $max): array {
        $n = $this->s->size($max);
        $r = [];
        for ($i = 0; $i < $n; $i++) { $r[] = ($this->spec->elem)(); }
        return $r;
    }
    public function construct(): void {
        $s = $this->s;
        $cls = $this->spec->class;
        $vals = $this->vals($s->chance(1, 12) ? 300 : 20);
        [$src, $d] = make_value_source($s, $vals);
        if ($this->c->verbose) { $this->c->say("\$o = new $cls($d of " . show($vals) . ')'); }
        $this->o = !$vals && $s->chance(1, 2) ? new $cls() : new $cls($src);
        $this->m = $vals;
        if ($s->int(5) === 4) { [$this->o, $d] = rebirth($s, $this->o); $this->c->say("\$o: $d"); }
        $this->check('construct');
    }
    /** Offset: mostly valid, sometimes at or beyond the ends. */
    public function off(int $extra = 0): int {
        $n = count($this->m);
        switch ($this->s->int(12)) {
            case 0: return 0;
            case 1: return $n - 1;
            case 2: return $n;
            case 3: return $this->s->pick([-1, $n + 1, $n + 7, PHP_INT_MAX, PHP_INT_MIN, 1 << 32, -(1 << 32), (1 << 32) + ($n > 0 ? $n - 1 : 0), -$n]);
            default: return $n ? $this->s->int($n + $extra) : 0;
        }
    }
    public function in(int $i): bool { return $i >= 0 && $i < count($this->m); }

    public function step(): void {
        $s = $this->s; $c = $this->c; $o = $this->o; $cls = $this->spec->class;
        $elem = $this->spec->elem;
        $c->ops++;
        $ops = ['push' => 12, 'pop' => 6, 'pushFront' => 6, 'popFront' => 5, 'insert' => 8, 'set' => 5, 'get' => 4, 'offsetGet' => 2, 'offsetSet' => 3, 'append' => 3,
            'offsetUnset' => 6, 'exists' => 3, 'containsKey' => 2, 'first' => 1, 'last' => 1, 'indexOf' => 4, 'contains' => 4, 'clear' => 1, 'clone' => 2, 'bulk' => 2, 'drain' => 2, 'wrap' => 2,
            'roundtrip' => 1, 'iter' => 3, 'views' => 1];
        if ($this->spec->fixed) { $ops = ['get' => 6, 'offsetGet' => 4, 'exists' => 4, 'containsKey' => 3, 'first' => 2, 'last' => 2, 'indexOf' => 5, 'contains' => 5, 'clone' => 2, 'roundtrip' => 2, 'iter' => 3, 'views' => 2, 'map' => 4, 'filter' => 4]; }
        if ($this->spec->mapFilter) { $ops += ['map' => 3, 'filter' => 3]; }
        if ($this->spec->setSize) { $ops['setSize'] = 4; }
        if ($this->spec->reserve) { $ops += ['reserve' => 2, 'shrinkToFit' => 2]; }
        $op = $s->pickw($ops);
        $m = &$this->m;
        $n = count($m);
        $exp = ['ok', null];
        $say = &$c->doing;
        $say = $op;
        switch ($op) {
            case 'push':
                $v = $this->vals(6);
                if ($n > 400) { $v = []; }
                $name = seq_alias($s, $cls, 'push');
                $say = "$name(..." . ($c->verbose ? show($v) : '') . ')';
                $act = attempt(fn() => $o->$name(...$v));
                array_push($m, ...$v);
                break;
            case 'bulk':
                $v = $this->vals(70);
                if ($n > 400) { $v = []; }
                $front = $s->chance(1, 3);
                $say = ($front ? 'unshift' : 'push') . '(...' . ($c->verbose ? show($v) : '') . ')';
                if ($front) { $act = attempt(fn() => $o->unshift(...$v)); array_unshift($m, ...array_reverse($v)); }
                else { $name = seq_alias($s, $cls, 'push'); $act = attempt(fn() => $o->$name(...$v)); array_push($m, ...$v); }
                break;
            case 'pushFront':
                $v = $this->vals(5);
                if ($n > 400) { $v = []; }
                $name = $s->chance(1, 2) ? 'pushFront' : 'unshift';
                $say = "$name(..." . ($c->verbose ? show($v) : '') . ')';
                $act = attempt(fn() => $o->$name(...$v));
                array_unshift($m, ...array_reverse($v));
                break;
            case 'insert':
                $i = $s->chance(1, 6) ? $this->off() : $s->int($n + 1);
                $v = $this->vals($s->chance(1, 6) ? 40 : 4);
                if ($n > 400) { $v = []; }
                $say = "insert($i, ..." . ($c->verbose ? show($v) : '') . ')';
                $act = attempt(fn() => $o->insert($i, ...$v));
                if ($i < 0 || $i > $n) { $exp = [OOB]; } else { array_splice($m, $i, 0, array_map(fn($x) => [$x], $v)); for ($j = 0; $j < count($v); $j++) { $m[$i + $j] = $v[$j]; } }
                break;
            case 'pop':
                $say = 'pop()';
                $act = attempt(fn() => $o->pop());
                $exp = $n ? ['ok', array_pop($m)] : [UNDERFLOW];
                break;
            case 'popFront':
                $name = $s->chance(1, 2) ? 'popFront' : 'shift';
                $say = "$name()";
                $act = attempt(fn() => $o->$name());
                $exp = $n ? ['ok', array_shift($m)] : [UNDERFLOW];
                break;
            case 'drain':
                // many removals from one end, so that shrinking is exercised
                $k = $s->int($n + 1);
                $name = $s->chance(1, 2) ? 'pop' : 'shift';
                $say = "$k x $name()";
                $got = [];
                for ($i = 0; $i < $k; $i++) { $got[] = $o->$name(); }
                $want = [];
                for ($i = 0; $i < $k; $i++) { $want[] = $name === 'pop' ? array_pop($m) : array_shift($m); }
                $act = ['ok', $got];
                $exp = ['ok', $want];
                break;
            case 'wrap':
                // move the window: push at one end, remove at the other
                $k = $s->int(20);
                $dir = $s->int(2);
                $say = "$k x rotate " . ($dir ? 'right' : 'left');
                if ($n) {
                    for ($i = 0; $i < $k; $i++) {
                        if ($dir) { $x = $o->pop(); $o->pushFront($x); array_unshift($m, array_pop($m)); }
                        else { $x = $o->shift(); $o->push($x); $m[] = array_shift($m); }
                    }
                }
                $act = ['ok', null];
                break;
            case 'set':
                $i = $this->off();
                $v = $elem();
                $name = seq_alias($s, $cls, 'set');
                $say = "$name($i, " . ($c->verbose ? show($v) : '') . ')';
                $act = attempt(fn() => $o->$name($i, $v));
                if ($this->in($i)) { $m[$i] = $v; } else { $exp = [OOB]; }
                break;
            case 'offsetSet':
                $i = $this->off();
                $v = $elem();
                $say = "[$i] = " . ($c->verbose ? show($v) : '');
                $act = $s->chance(1, 2) ? attempt(function () use ($o, $i, $v) { $o[$i] = $v; }) : attempt(fn() => $o->offsetSet($i, $v));
                if ($this->in($i)) { $m[$i] = $v; } else { $exp = ['RuntimeException']; }   // OutOfBoundsException, or its parent on Deque
                break;
            case 'append':
                $v = $elem();
                if ($n > 400) { return; }
                $say = '[] = ' . ($c->verbose ? show($v) : '');
                $act = attempt(function () use ($o, $v) { $o[] = $v; });
                $m[] = $v;
                break;
            case 'get':
                $i = $this->off();
                $say = "get($i)";
                $act = attempt(fn() => $o->get($i));
                $exp = $this->in($i) ? ['ok', $m[$i]] : [OOB];
                break;
            case 'offsetGet':
                $i = $this->off();
                $say = "[$i]";
                $act = $s->chance(1, 2) ? attempt(fn() => $o[$i]) : attempt(fn() => $o->offsetGet($i));
                $exp = $this->in($i) ? ['ok', $m[$i]] : [OOB];
                break;
            case 'offsetUnset':
                $i = $this->off();
                $say = "unset([$i])";
                $act = $s->chance(1, 2) ? attempt(function () use ($o, $i) { unset($o[$i]); }) : attempt(fn() => $o->offsetUnset($i));
                if ($this->in($i)) { array_splice($m, $i, 1); } else { $exp = [OOB]; }
                break;
            case 'exists':
                $i = $this->off();
                $say = "isset/empty([$i])";
                $act = attempt(fn() => [isset($o[$i]), empty($o[$i]), $o->offsetExists($i)]);
                $exp = ['ok', [isset($m[$i]), empty($m[$i]), isset($m[$i])]];
                break;
            case 'containsKey':
                $i = $this->off();
                $say = "containsKey($i)";
                $act = attempt(fn() => $o->containsKey($i));
                $exp = ['ok', $this->in($i)];
                break;
            case 'first':
                $name = seq_alias($s, $cls, 'first');
                $say = "$name()";
                $act = attempt(fn() => $o->$name());
                $exp = $n ? ['ok', $m[0]] : [UNDERFLOW];
                break;
            case 'last':
                $name = seq_alias($s, $cls, 'last');
                $say = "$name()";
                $act = attempt(fn() => $o->$name());
                $exp = $n ? ['ok', $m[$n - 1]] : [UNDERFLOW];
                break;
            case 'indexOf':
                $v = no_nested_nan($elem());
                $say = 'indexOf(' . ($c->verbose ? show($v) : '') . ')';
                $act = attempt(fn() => $o->indexOf($v));
                $k = array_search(known_bitvector_inverted($cls) ? !$v : $v, $m, true);
                $exp = ['ok', $k === false ? null : $k];
                break;
            case 'contains':
                $v = no_nested_nan($s->chance(1, 3) ? $this->pool->probe() : $elem());
                $say = 'contains(' . ($c->verbose ? show($v) : '') . ')';
                $act = attempt(fn() => $o->contains($v));
                $exp = ['ok', in_array(is_bool($v) && known_bitvector_inverted($cls) ? !$v : $v, $m, true)];
                break;
            case 'clear':
                $say = 'clear()';
                $act = attempt(fn() => $o->clear());
                $m = [];
                break;
            case 'clone':
                $say = '$o = clone $o, original changed';
                $old = $o;
                $this->o = clone $old;
                if ($this->spec->fixed) { } elseif ($s->chance(1, 2)) { $old->clear(); } else { $old->push($elem()); if ($n) { $old->popFront(); } }
                unset($old);
                $act = ['ok', null];
                break;
            case 'roundtrip':
                $say = '$o = unserialize(serialize($o)) when free of objects';
                if (count($m) < 50 && !has_object($m)) {
                    $this->o = unserialize(serialize($o));
                }
                $act = ['ok', null];
                break;
            case 'iter':
                $say = 'foreach';
                $ks = $vs = [];
                foreach ($o as $k => $v) { $ks[] = $k; $vs[] = $v; }
                $act = ['ok', [$ks, $vs]];
                $exp = ['ok', [array_keys($m), $m]];
                break;
            case 'views':
                $say = 'count/isEmpty/values/iterator';
                $it = $o->getIterator();
                $vs = [];
                for ($it->rewind(); $it->valid(); $it->next()) { $vs[$it->key()] = $it->current(); }
                $act = ['ok', [count($o), $o->count(), $o->isEmpty(), $o->values(), $vs]];
                $exp = ['ok', [$n, $n, $n === 0, $m, $m]];
                break;
            case 'map':
                $say = 'map';
                $add = $s->int(3);
                $f = function ($x) use ($add) { return $add === 0 ? $x : ($add === 1 ? [$x] : !is_int($x)); };
                if ($s->chance(1, 4)) { $slot = null; $fr = function &($x) use ($f, &$slot) { $slot = $f($x); return $slot; }; $r = $o->map($fr); $say = 'map by reference'; } else { $r = $o->map($f); }
                $want = array_map($f, $m);
                $act = ['ok', [get_class($r), $r->toArray()]];
                $exp = ['ok', [$cls, $want]];
                if ($s->chance(1, 2) || $this->spec->fixed) { $this->o = $r; $m = $want; }
                break;
            case 'filter':
                $cb = $s->int(3);
                $say = 'filter';
                if ($cb === 0 && $s->chance(1, 2) && $this->spec->mapFilter) { $add = [0, null, '', false, '0', [], 0.0, -0.0][$s->int(8)]; if (is_object($o) && method_exists($o, 'insert') && !coll_immutable($cls)) { $at = $s->int($n + 1); $o->insert($at, $add); array_splice($m, $at, 0, [$add]); } }
                if ($cb === 0) { $r = $s->int(2) ? $o->filter() : $o->filter(null); $want = array_values(array_filter($m)); }
                elseif ($cb === 1) { $f = fn($x) => is_int($x) || is_string($x) ? 'yes' : 0; $r = $o->filter($f); $want = array_values(array_filter($m, $f)); }
                else { $ctr = 0; $mask = $s->int(64); $f = function ($x) use (&$ctr, $mask) { return ($mask >> ($ctr++ % 6)) & 1; }; $r = $o->filter($f); $ctr = 0; $want = array_values(array_filter($m, $f)); }
                $act = ['ok', [get_class($r), $r->toArray()]];
                $exp = ['ok', [$cls, $want]];
                if ($s->chance(1, 3)) { $this->o = $r; $m = $want; }
                break;
            case 'setSize':
                $k = $s->chance(1, 3) ? $s->int(min(300, 2 * $n + 3)) : max(0, $n + $s->range(-5, 5));
                $d = $s->chance(1, 2) ? $elem() : null;
                if ($s->chance(1, 15)) { $k = -1 - $s->int(3); }
                $isBit = $cls === Teds\BitVector::class;
                $fill = $isBit ? (bool)$d : $d;
                $say = "setSize($k" . ($d !== null && $c->verbose ? ', ' . show($d) : '') . ')';
                $act = attempt(fn() => $d === null ? $o->setSize($k) : $o->setSize($k, $d));
                if ($k < 0) { $exp = ['ValueError']; if ($act[0] !== 'ValueError' && $act[0] !== 'ok') { $exp = [$act[0]]; } }
                else { $m = $k <= $n ? array_slice($m, 0, $k) : array_pad($m, $k, $fill); }
                break;
            case 'reserve':
                $k = $s->int(200);
                $say = "reserve($k)";
                $act = attempt(fn() => $o->reserve($k));
                if ($act[0] === 'ok' && $o->capacity() < $k) { $c->fail("capacity {$o->capacity()} after reserve($k)"); }
                break;
            case 'shrinkToFit':
                $say = 'shrinkToFit()';
                $act = attempt(fn() => $o->shrinkToFit());
                break;
            default:
                throw new LogicException($op);
        }
        if ($c->verbose) { $c->say($say . '  -> ' . show_outcome($act)); }
        if ($n > 0 && $op !== 'get') { $c->nt(); }
        expect_outcome($c, "$cls::$say", $exp, $act);
        $this->check($say);
    }

    /** Values of the wrong type must be refused at any argument position, changing nothing. */
    public function badStep(): void {
        $s = $this->s; $o = $this->o; $c = $this->c;
        $c->ops++;
        $ok = $this->spec->elem;
        $bad = ($this->spec->bad)();
        $isInt = $this->spec->class === Teds\IntVector::class;
        if ($isInt ? is_int($bad) : is_bool($bad)) { $bad = $s->pick([null, '1', 1.0, [], 'x', $isInt ? true : 1]); }
        $args = $this->vals(3);
        array_splice($args, $s->int(count($args) + 1), 0, [$bad]);
        $n = count($this->m);
        $op = $s->pick(['push', 'pushFront', 'unshift', 'insert', 'set', 'offsetSet', '[]', '[]=', 'new']);
        if ($n === 0 && in_array($op, ['set', 'offsetSet', '[]'], true)) { $op = 'push'; }
        $i = $n ? $s->int($n) : 0;
        $act = match ($op) {
            'push', 'pushFront', 'unshift' => attempt(fn() => $o->$op(...$args)),
            'insert' => attempt(fn() => $o->insert($i, ...$args)),
            'set' => attempt(fn() => $o->set($i, $bad)),
            'offsetSet' => attempt(fn() => $o->offsetSet($i, $bad)),
            '[]' => attempt(function () use ($o, $i, $bad) { $o[$i] = $bad; }),
            '[]=' => attempt(function () use ($o, $bad) { $o[] = $bad; }),
            'new' => attempt(fn() => new ($this->spec->class)($args)),
        };
        if ($c->verbose) { $c->say("bad $op " . show($args) . ' -> ' . show_outcome($act)); }
        expect_outcome($c, "$op with " . show($bad), ['TypeError'], $act);
        // a multi-value call may keep the values in front of the refused one, in the order it adds them
        $k = 0;
        while ($k < count($args) && ($isInt ? is_int($args[$k]) : is_bool($args[$k]))) { $k++; }
        $added = count($o) - $n;
        if ($added > 0 && $added <= $k && in_array($op, ['push', 'pushFront', 'unshift', 'insert'], true)) {
            $pre = array_slice($args, 0, $added);
            if ($op === 'push') { array_push($this->m, ...$pre); }
            elseif ($op === 'insert') { array_splice($this->m, $i, 0, $pre); }
            else { array_unshift($this->m, ...array_reverse($pre)); }
        }
        $this->check("failed $op");
    }

    public function check(string $what): void {
        $o = $this->o; $m = $this->m; $c = $this->c;
        $n = count($m);
        if (count($o) !== $n) { $c->fail("after $what: count() is " . count($o) . ", expected $n"); }
        $a = $o->toArray();
        if (!same_list($m, $a, $this->pool->floaty)) {
            $c->fail("after $what: contents " . show($a) . ', expected ' . show($m));
        }
        if ($o->isEmpty() !== ($n === 0)) { $c->fail("after $what: isEmpty() wrong"); }
        if ($this->spec->hasCap && $o->capacity() < $n) { $c->fail("after $what: capacity() {$o->capacity()} below count $n"); }
    }
}

function has_object($v): bool {
    if (is_object($v)) { return true; }
    if (is_resource($v)) { return true; }
    if (is_array($v)) { foreach ($v as $x) { if (has_object($x)) { return true; } } }
    return false;
}

function seq_spec(string $class, Pool $pool, Src $s): SeqSpec {
    return match ($class) {
        Teds\Vector::class => new SeqSpec($class, fn() => $pool->any(), null, true, true, true, true),
        Teds\ImmutableSequence::class => new SeqSpec($class, fn() => $pool->any(), null, true, false, false, false, true),
        Teds\Deque::class => new SeqSpec($class, fn() => $pool->any(), null, false, false, false, true),
        Teds\LowMemoryVector::class => new SeqSpec($class, fn() => $pool->any()),
        Teds\IntVector::class => new SeqSpec($class, fn() => $pool->any(), fn() => $pool->near()),
        Teds\BitVector::class => new SeqSpec($class, fn() => $pool->any(), fn() => $pool->near(), false, true),
    };
}

/**
 * Known finding F01 (see known_findings.json): BitVector::indexOf($b)/contains($b) answer for !$b, and the repository's own
 * tests pin that. While the defect is present exactly that answer is required; once repaired, the correct one.
 */
function known_bitvector_inverted(string $class): bool {
    static $inv = null;
    if ($class !== Teds\BitVector::class) { return false; }
    return $inv ??= (new Teds\BitVector([true]))->indexOf(true) === null && (new Teds\BitVector([true]))->contains(true) === false;
}

/** [NAN] === [NAN] holds exactly when both share one storage, which no specification fixes: search for something else. */
/** Another name of the same operation, if the class has one. */
function seq_alias(Src $s, string $cls, string $m): string {
    $a = [Teds\BitVector::class => ['push' => 'pushBits', 'set' => 'setBit'], Teds\IntVector::class => ['push' => 'pushInts', 'set' => 'setInt'], Teds\Deque::class => ['first' => 'bottom', 'last' => 'top']][$cls][$m] ?? null;
    return $a !== null && $s->chance(1, 3) ? $a : $m;
}
function no_nested_nan($v) { return is_array($v) && has_nan($v) ? [] : $v; }
function has_nan($v): bool {
    if (is_float($v)) { return $v !== $v; }
    if (is_array($v)) { foreach ($v as $x) { if (has_nan($x)) { return true; } } }
    return false;
}
