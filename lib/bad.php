<?php
// Calls that cannot be carried out.

final class UserError extends DomainException {}
/** Yields the pairs and then throws. */
function failing_gen(array $pairs, int $at) { foreach ($pairs as $i => [$k, $v]) { if ($i === $at) { throw new UserError('from the source'); } yield $k => $v; } throw new UserError('from the source'); }
final class FailingIter implements Iterator {
    private int $i = 0;
    public function __construct(private array $pairs, private string $where, private int $at) {}
    private function hit(string $w): void { if ($w === $this->where && $this->i >= $this->at) { throw new UserError("from $w()"); } }
    public function current(): mixed { $this->hit('current'); return $this->pairs[$this->i][1]; }
    public function key(): mixed { $this->hit('key'); return $this->pairs[$this->i][0]; }
    public function next(): void { $this->hit('next'); $this->i++; }
    public function rewind(): void { if ($this->where === 'rewind') { throw new UserError('from rewind()'); } $this->i = 0; }
    public function valid(): bool { $this->hit('valid'); return $this->i < count($this->pairs); }
}
final class FailingAgg implements IteratorAggregate {
    public function getIterator(): Iterator { throw new UserError('from getIterator()'); }
}
function failing_source(Src $s, array $pairs): array {
    $at = $s->int(count($pairs) + 1);
    switch ($s->int(7)) {
        case 0: return [failing_gen($pairs, $at), "generator failing at $at"];
        case 1: return [new FailingAgg(), 'failing aggregate'];
        default:
            $w = $s->pick(['rewind', 'valid', 'current', 'key', 'next']);
            if (!$pairs && $w !== 'rewind') { $w = 'valid'; }
            if ($at === count($pairs) && $w !== 'rewind') { $w = 'valid'; }
            return [new FailingIter($pairs, $w, $at), "iterator failing in $w at $at"];
    }
}
/** Does a source of this kind always fail for the class? (a set does not need keys) */
const UNSUPPORTED = Teds\UnsupportedOperationException::class;

/** An offset that is out of range for n entries. */
function bad_int(Src $s, int $n): int { return $s->pick([$n, -1, $n + 1, -2, $n + 7, PHP_INT_MAX, PHP_INT_MIN, 1 << 32, -$n - 1]); }
/** An offset of a type sequences do not accept. */
function bad_type(Src $s) { return $s->pick(['abc', [], null, new Obj(), '1x', '', [1], ' 1', '1.5', 'e1']); }

/**
 * A call on $o that has to fail.
 * @return array{string, Closure, string[], bool} description, call, acceptable exceptions, whether values before the refused one may stay
 */
function bad_call(Src $s, CollGen $g, object $o): array {
    $cls = get_class($o);
    $kind = coll_kind($cls);
    $n = count($o);
    $imm = coll_immutable($cls);
    $elem = coll_elem_kinds($cls, '');
    $wrong = fn() => $s->pick(match ($elem) {
        'i' => ['1', 1.0, 1.5, true, null, [], [1], new Obj(), 'x'],
        'b' => ['1', 1, 0, 1.0, null, [], [true], new Obj(), 'x'],
        's' => [1, 1.0, true, null, [], ['a'], new Obj()],
        default => [0],
    });
    $L = [];
    $add = function (string $d, Closure $f, array $ex, bool $keep = false) use (&$L) { $L[] = [$d, $f, $ex, $keep]; };
    $vals = fn($k) => array_map(fn() => $g->val(), array_fill(0, $k, 0));
    $k2 = $s->int(4);
    if ($s->int(12) === 11) {
        // a wrong number of arguments
        static $methods = [];
        $methods[$cls] ??= array_values(array_filter((new ReflectionClass($cls))->getMethods(ReflectionMethod::IS_PUBLIC), fn($m) => !$m->isStatic() && !str_contains($m->name, 'debug')));
        $rm = $s->pick($methods[$cls]);
        $req = $rm->getNumberOfRequiredParameters();
        $few = $req > 0 && $s->int(2);
        if ($few || !$rm->isVariadic()) {
            $args = [];
            foreach ($rm->getParameters() as $p) { $args[] = match (ltrim((string)$p->getType(), '?')) { 'int' => 0, 'array', 'iterable' => [], 'callable' => 'is_int', 'string' => 'x', 'bool' => true, default => $g->val() }; }
            if ($few) { $args = array_slice($args, 0, $s->int($req)); } else { for ($j = 1 + $s->int(2); $j > 0; $j--) { $args[] = $s->pick([null, 1, 'x', []]); } }
            $name = $rm->name;
            return ["$name() with " . count($args) . ' arguments', fn() => $o->$name(...$args), [ArgumentCountError::class], false];
        }
    }
    $arrs = $kind === 'map' || $kind === 'pairs' ? [[0, 1], [1, 2]] : [];
    $add('second __construct', fn() => $o->__construct($elem === 's' ? ['q'] : ($elem === 'b' ? [true] : [7])), [RuntimeException::class]);
    $add('second __unserialize', fn() => $o->__unserialize($kind === 'heap' || $kind === 'seq' ? $vals($k2) : []), [RuntimeException::class, UnexpectedValueException::class]);
    $add('foreach by reference', function () use ($o) { foreach ($o as &$v) { $v = 1; } }, [Error::class]);
    if ($o instanceof ArrayAccess) {
        $x = $g->val();
        $add('[][0] =', function () use ($o, $x) { $o[][0] = $x; }, [RuntimeException::class, Error::class]);
        $add('reference to []', function () use ($o, $x) { $r = &$o[]; $r = $x; }, [RuntimeException::class, Error::class]);
    }
    $add('unknown method', fn() => $o->noSuchMethod(1), [Error::class]);
    switch ($kind) {
        case 'seq':
            $i = bad_int($s, $n);
            $add("get($i)", fn() => $o->get($i), [OutOfBoundsException::class]);
            $add("[$i]", fn() => $o[$i], [OutOfBoundsException::class]);
            $t = bad_type($s);
            $add('[' . show($t) . ']', fn() => $o[$t], [TypeError::class]);
            if ($t !== null && !is_numeric($t)) { $add('get(' . show($t) . ')', fn() => $o->get($t), [TypeError::class]); }
            if (!$n) {
                $add('first()', fn() => $o->first(), [UnderflowException::class]);
                $add('last()', fn() => $o->last(), [UnderflowException::class]);
            }
            if ($imm) {
                $v = $vals(1 + $k2 % 2);
                foreach (['push', 'pushFront', 'unshift'] as $m) { $add("$m(...)", fn() => $o->$m(...$v), [UNSUPPORTED]); }
                foreach (['pop', 'shift', 'popFront'] as $m) { $add("$m()", fn() => $o->$m(), $n ? [UNSUPPORTED] : [UNSUPPORTED, UnderflowException::class]); }
                if ($n) { $add('clear()', fn() => $o->clear(), [UNSUPPORTED]); }
                $j = $n ? $s->int($n) : 0;
                $add("set($j)", fn() => $o->set($j, $v[0]), [UNSUPPORTED]);
                $add("[$j] =", function () use ($o, $j, $v) { $o[$j] = $v[0]; }, [UNSUPPORTED]);
                $add("[] =", function () use ($o, $v) { $o[] = $v[0]; }, [UNSUPPORTED]);
                $add("unset($j)", function () use ($o, $j) { unset($o[$j]); }, [UNSUPPORTED]);
                $add("insert($j)", fn() => $o->insert($j, ...$v), [UNSUPPORTED]);
                break;
            }
            $v = $g->val();
            $add("set($i)", fn() => $o->set($i, $v), [OutOfBoundsException::class, RuntimeException::class]);
            $add("[$i] =", function () use ($o, $i, $v) { $o[$i] = $v; }, [OutOfBoundsException::class, RuntimeException::class]);
            $add("unset($i)", function () use ($o, $i) { unset($o[$i]); }, [OutOfBoundsException::class, RuntimeException::class]);
            if ($t !== null) { $add('[' . show($t) . '] =', function () use ($o, $t, $v) { $o[$t] = $v; }, [TypeError::class]); }
            $add('unset(' . show($t) . ')', function () use ($o, $t) { unset($o[$t]); }, [TypeError::class]);
            if ($i !== $n) { $vs = $vals($k2); $add("insert($i)", fn() => $o->insert($i, ...$vs), [OutOfBoundsException::class]); }
            if (!$n) { foreach (['pop', 'shift', 'popFront'] as $m) { $add("$m()", fn() => $o->$m(), [UnderflowException::class]); } }
            if (method_exists($o, 'setSize')) {
                $add('setSize(-1)', fn() => $o->setSize(-1 - $k2, $v), [ValueError::class, InvalidArgumentException::class]);
            }
            if (method_exists($o, 'map')) {
                $at = $s->int($n + 1);
                $m = $s->pick(['map', 'filter']);
                if ($at < $n) { $i2 = 0; $add("$m(throwing at $at)", fn() => $o->$m(function ($x) use (&$i2, $at) { if ($i2++ === $at) { throw new UserError('from the callback'); } return $x; }), [UserError::class]); }
                $add("map('nofunc')", fn() => $o->map('no such function'), [TypeError::class]);
            }
            if ($elem) {
                $w = $wrong();
                $vs = $vals($k2);
                $vs[] = $w;
                if ($s->chance(1, 2)) { $vs[] = $g->val(); }
                foreach (['push', 'pushFront', 'unshift'] as $m) { $add("$m(" . show($vs) . ')', fn() => $o->$m(...$vs), [TypeError::class], true); }
                $j = $s->int($n + 1);
                $add("insert($j, " . show($vs) . ')', fn() => $o->insert($j, ...$vs), [TypeError::class], true);
                if ($n) {
                    $j = $s->int($n);
                    $add("set($j, " . show($w) . ')', fn() => $o->set($j, $w), [TypeError::class]);
                    $add("[$j] = " . show($w), function () use ($o, $j, $w) { $o[$j] = $w; }, [TypeError::class]);
                }
                $add('[] = ' . show($w), function () use ($o, $w) { $o[] = $w; }, [TypeError::class]);
            }
            if ($cls === Teds\BitVector::class) {
                [$m, $bits] = $s->pick([['getInt8', 8], ['getUInt8', 8], ['getInt16', 16], ['getUInt16', 16], ['getInt32', 32], ['getUInt32', 32], ['getInt64', 64], ['setInt8', 8], ['setInt16', 16], ['setInt32', 32], ['setInt64', 64]]);
                $j = $s->pick([intdiv($n, $bits), -1, intdiv($n, $bits) + 1, PHP_INT_MAX, PHP_INT_MIN, PHP_INT_MAX >> 3, 1 << 60, (1 << 61) + 1, PHP_INT_MAX >> 6]);
                $add("$m($j)", fn() => $m[0] === 'g' ? $o->$m($j) : $o->$m($j, 5), [OutOfBoundsException::class]);
                $add("setBit($i)", fn() => $o->setBit($i, true), [OutOfBoundsException::class]);
            }
            if ($cls === Teds\IntVector::class) { $add("setInt($i)", fn() => $o->setInt($i, 3), [OutOfBoundsException::class]); }
            break;
        case 'pairs':
            $i = bad_int($s, $n);
            $add("keyAt($i)", fn() => $o->keyAt($i), [OutOfBoundsException::class]);
            $add("valueAt($i)", fn() => $o->valueAt($i), [OutOfBoundsException::class]);
            $add("valueAt([])", fn() => $o->valueAt([]), [TypeError::class]);
            if ($imm) { if ($n) { $add('clear()', fn() => $o->clear(), [UNSUPPORTED]); } break; }
            $v = $g->val();
            $add("setKeyAt($i)", fn() => $o->setKeyAt($i, $v), [OutOfBoundsException::class]);
            $add("setValueAt($i)", fn() => $o->setValueAt($i, $v), [OutOfBoundsException::class]);
            $add('setSize(-1)', fn() => $o->setSize(-1 - $k2), [ValueError::class, InvalidArgumentException::class]);
            $add('push(1 argument)', fn() => $o->push($v), [ArgumentCountError::class]);
            if (!$n) { $add('pop()', fn() => $o->pop(), [UnderflowException::class]); }
            break;
        case 'heap':
            if (!$n) { foreach (['extract', 'top', 'next', 'current', 'key'] as $m) { if ($m === 'key' || $m === 'next') { continue; } $add("$m()", fn() => $o->$m(), [UnderflowException::class]); } }
            $add('add()', fn() => $o->add(), [ArgumentCountError::class]);
            break;
        case 'map':
            do { $k = $s->chance(1, 2) ? $g->keys->near() : $g->keys->any(); $has = $o->containsKey($k); } while ($has && $s->chance(3, 4));
            if ($has) { $k = new Obj(-1); }
            $add('[' . show($k) . ']', fn() => $o[$k], [OutOfBoundsException::class]);
            $add('get(' . show($k) . ')', fn() => $o->get($k), [OutOfBoundsException::class]);
            $v = $g->val();
            $add('[] =', function () use ($o, $v) { $o[] = $v; }, [RuntimeException::class]);
            if (!$n && $cls !== Teds\StrictHashMap::class) {
                foreach (['pop', 'shift', 'popFront', 'first', 'last', 'firstKey', 'lastKey', 'top', 'bottom', 'topKey', 'bottomKey'] as $m) { $add("$m()", fn() => $o->$m(), [UnderflowException::class]); }
            }
            break;
        case 'set':
            if (!$n && $cls !== Teds\StrictHashSet::class) {
                foreach (['pop', 'shift', 'popFront', 'first', 'last', 'top', 'bottom'] as $m) { $add("$m()", fn() => $o->$m(), [UnderflowException::class]); }
            }
            $add('add()', fn() => $o->add(), [ArgumentCountError::class]);
            break;
        case 'sorted':
            $i = bad_int($s, $n);
            $add("get($i)", fn() => $o->get($i), [OutOfBoundsException::class]);
            if (!$n) { foreach (['first', 'last'] as $m) { $add("$m()", fn() => $o->$m(), [UnderflowException::class]); } }
            if ($imm) {
                $v = $g->val();
                $add('add()', fn() => $o->add($v), [UNSUPPORTED]);
                if ($n) {
                    $add('remove()', fn() => $o->remove($v), [UNSUPPORTED]);
                    $add('clear()', fn() => $o->clear(), [UNSUPPORTED]);
                }
                break;
            }
            $w = $wrong();
            $add('add(' . show($w) . ')', fn() => $o->add($w), [TypeError::class]);
            if (!$n) { $add('pop()', fn() => $o->pop(), [UnderflowException::class]); }
            break;
    }
    return $L[$s->int(count($L))];
}

/**
 * Creating a collection in a way that has to fail.
 * @return array{string, Closure, string[]}
 */
function bad_create(Src $s, CollGen $g): array {
    $cls = $g->cls;
    $kind = coll_kind($cls);
    $elem = coll_elem_kinds($cls, '');
    $pairish = $kind === 'map' || $kind === 'pairs';
    $pairs = [];
    for ($n = $s->size(8); $n > 0; $n--) { $pairs[] = [$pairish ? $g->key() : count($pairs), $g->val()]; }
    $opts = ['source', 'type', 'source'];
    if ($pairish) { $opts[] = 'pairs'; $opts[] = 'pairs source'; $opts[] = 'pairs'; }
    $opts[] = 'set_state';
    if ($elem) { $opts[] = 'element'; $opts[] = 'element'; }
    if ($cls === Teds\CachedIterable::class) { $opts = ['type', 'pairs', 'set_state']; }
    switch ($s->pick($opts)) {
        case 'source':
            do {
                [$src, $d] = failing_source($s, $pairs);
                $bad = !$pairish && str_contains($d, 'in key');      // keys need not be asked for
            } while ($bad);
            return ["new $cls($d)", fn() => new $cls($src), [UserError::class]];
        case 'pairs source':
            do {
                [$src, $d] = failing_source($s, array_map(fn($p) => [0, $p], $pairs));
                $bad = str_contains($d, 'in key');
            } while ($bad);
            return ["$cls::fromPairs($d)", fn() => $cls::fromPairs($src), [UserError::class]];
        case 'pairs':
            $bad = $s->pick([5, 'x', [], [1], ['a' => 1, 'b' => 2], [1 => 2, 2 => 3], null, new Obj()]);
            array_splice($pairs, $s->int(count($pairs) + 1), 0, [$bad]);
            $gen = $cls !== Teds\CachedIterable::class && $s->chance(1, 2);
            return ["$cls::fromPairs(" . show($pairs) . ')', fn() => $cls::fromPairs($gen ? new ArrayIterator($pairs) : $pairs), [UnexpectedValueException::class, TypeError::class]];
        case 'set_state':
            if ($pairish) {
                array_splice($pairs, $s->int(count($pairs) + 1), 0, [$s->pick([5, [], [1], null, new Obj()])]);
                return ["$cls::__set_state(" . show($pairs) . ')', fn() => $cls::__set_state($pairs), [UnexpectedValueException::class, TypeError::class]];
            }
            return ["$cls::__set_state(5)", fn() => $cls::__set_state(5), [TypeError::class]];
        case 'element':
            $w = $s->pick(match ($elem) { 'i' => ['1', 1.5, true, null, [1], new Obj()], 'b' => ['1', 1, null, [true], new Obj()], 's' => [1, 1.0, true, null, ['a'], new Obj()] });
            $vals = array_column($pairs, 1);
            array_splice($vals, $s->int(count($vals) + 1), 0, [$w]);
            if ($s->chance(1, 3)) { return ["$cls::__set_state(" . show($vals) . ')', fn() => $cls::__set_state($vals), [TypeError::class, UnexpectedValueException::class]]; }
            [$src, $d] = make_value_source($s, $vals);
            return ["new $cls($d of " . show($vals) . ')', fn() => new $cls($src), [TypeError::class]];
        default:
            $w = $s->pick([5, 'x', null, 1.5, new Obj()]);
            return ["new $cls(" . show($w) . ')', fn() => new $cls($w), [TypeError::class]];
    }
}
