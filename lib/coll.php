<?php
// All collection classes behind one interface: construct, change at random, read back.

const SEQ_CLASSES = [Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class, Teds\ImmutableSequence::class];
const PAIR_CLASSES = [Teds\ImmutableIterable::class, Teds\MutableIterable::class, Teds\CachedIterable::class];
const HEAP_CLASSES = [Teds\StrictMinHeap::class, Teds\StrictMaxHeap::class];
const SORTED_SETS = [Teds\SortedIntVectorSet::class, Teds\ImmutableSortedIntSet::class, Teds\ImmutableSortedStringSet::class];
const ALL_MAPS = [Teds\StrictHashMap::class, Teds\StrictTreeMap::class, Teds\StrictSortedVectorMap::class];
const ALL_SETS = [Teds\StrictHashSet::class, Teds\StrictTreeSet::class, Teds\StrictSortedVectorSet::class];
const ALL_CLASSES = [...SEQ_CLASSES, ...PAIR_CLASSES, ...HEAP_CLASSES, ...SORTED_SETS, ...ALL_MAPS, ...ALL_SETS];
const IMMUTABLE_CLASSES = [Teds\ImmutableSequence::class, Teds\ImmutableIterable::class, Teds\CachedIterable::class, Teds\ImmutableSortedIntSet::class, Teds\ImmutableSortedStringSet::class];
/** Classes that take values of any type. */
const FREE_CLASSES = [Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\ImmutableSequence::class, ...PAIR_CLASSES, ...HEAP_CLASSES, ...ALL_MAPS, ...ALL_SETS];
const FREE_MUTABLE = [Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\MutableIterable::class, ...HEAP_CLASSES, ...ALL_MAPS, ...ALL_SETS];
const MUTABLE_CLASSES = [Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\IntVector::class, Teds\BitVector::class, Teds\MutableIterable::class, ...HEAP_CLASSES,
    Teds\SortedIntVectorSet::class, ...ALL_MAPS, ...ALL_SETS];

function coll_kind(string $cls): string {
    static $k = null;
    if ($k === null) {
        $k = [];
        foreach (['seq' => SEQ_CLASSES, 'pairs' => PAIR_CLASSES, 'heap' => HEAP_CLASSES, 'sorted' => SORTED_SETS, 'map' => ALL_MAPS, 'set' => ALL_SETS] as $n => $l) {
            foreach ($l as $x) { $k[$x] = $n; }
        }
    }
    return $k[$cls];
}
function coll_immutable(string $cls): bool { return in_array($cls, IMMUTABLE_CLASSES, true); }
/** Kinds of elements (Pool kinds) the class can hold; $free is used for classes without a restriction. */
function coll_elem_kinds(string $cls, string $free): string {
    return match ($cls) {
        Teds\IntVector::class, Teds\SortedIntVectorSet::class, Teds\ImmutableSortedIntSet::class => 'i',
        Teds\BitVector::class => 'b',
        Teds\ImmutableSortedStringSet::class => 's',
        default => $free,
    };
}

/** Element and key generator for one class. */
final class CollGen {
    public Pool $vals;
    public static int $big = 400;       // one in so many ImmutableSortedIntSets is large
    public static int $huge = 1500;     // one in so many collections has hundreds or thousands of entries
    public static int $medium = 60;
    public Pool $keys;
    public string $kind;
    public bool $unser = true;          // whether values may be replaced by equal ones
    public function __construct(public Src $s, public Ctx $c, public string $cls, string $free = 'niiffssaaoo', int $max = 8) {
        $this->kind = coll_kind($cls);
        $this->vals = new Pool($s, coll_elem_kinds($cls, $free), $max);
        $this->keys = $this->kind === 'map' || $this->kind === 'pairs' ? new Pool($s, $free, $max) : $this->vals;
    }
    public function val() { return $this->vals->any(); }
    public function key() { return $this->keys->any(); }
    public function valList(int $max): array {
        $r = [];
        for ($n = $this->s->size($max); $n > 0; $n--) { $r[] = $this->val(); }
        return $r;
    }
    /** @return array{object, string} new instance and a description */
    public function make(int $max = 14, bool $mutate = true): array {
        $s = $this->s;
        $cls = $this->cls;
        $vals = $this->valList($max);
        $long = $max > 7 && $s->int(self::$huge) === self::$huge - 1;
        // more distinct elements than the pool has, about as many as fill the storage
        $medium = !$long && $max > 7 && $s->int(self::$medium) === self::$medium - 1;
        if ($long || $medium) {
            $n = $long ? $s->pick([260, 520, 700, 1030, 2100]) + $s->int(40) : $s->pick([9, 17, 33, 65, 129]) - 4 + $s->int(8);
            $kinds = coll_elem_kinds($cls, 'x');
            $step = $s->pick([1, -1, 7, 1 << 20, (1 << 33) + 1]);
            $how = $kinds === 'x' ? $s->int(3) : 0;
            $vals = [];
            for ($i = 0; $i < $n; $i++) {
                $j = ($i * 7919) % 3001;
                $vals[] = match (true) { $this->vals->fixed => $this->val(), $kinds === 'b' => $j % 3 === 0, $kinds === 's', $how === 1 => "s$j", $how === 2 && $i % 2 => "s$j", default => $j * $step };
            }
            $this->c->label($long ? 'long' : 'medium');
            $long = true;
        }
        if ($this->kind === 'map' || $this->kind === 'pairs') {
            $pairs = [];
            $arrayish = $s->chance(1, 3);
            foreach ($vals as $i => $v) { $pairs[] = [$long && !$this->vals->fixed ? ($arrayish ? "k$i" : $v) : ($arrayish ? ($s->chance(1, 2) ? $i : "k$i") : $this->key()), $v]; }
            if ($s->chance(1, 3) && $cls !== Teds\CachedIterable::class) {
                [$src, $d] = make_value_source($s, $pairs);
                $o = $cls::fromPairs($src);
                $d = "fromPairs $d";
            } else {
                [$src, $d] = make_source($s, $pairs);
                $o = new $cls($src);
            }
            $vals = $pairs;
        } else {
            [$src, $d] = make_value_source($s, $vals);
            $o = new $cls($src);
        }
        if ($cls === Teds\ImmutableSortedIntSet::class && $s->int(self::$big) === self::$big - 1) {
            // enough bytes to keep the serialized string as its storage
            $st = $s->int(1000);
            $k = 1 + $s->int(5);
            $vals = array_map(fn($i) => $i * $k - $st, range(0, 4400 - $s->int(600)));
            if ($s->int(2)) { $vals = array_map(fn($i) => $i << 40, array_slice($vals, 0, 1030)); }
            $o = unserialize(serialize(new $cls($vals)));
            $d = 'unserialize';
        }
        if ($cls === Teds\ImmutableSortedStringSet::class && $s->int(self::$big) === self::$big - 1) {
            $vals = array_map(fn($i) => str_repeat('abcd'[$i], $s->pick([1, 252, 253, 254, 255, 65534, 65535, 65536, 65537])), range(0, $s->int(4)));
            $o = new $cls($vals);
            $d = 'long strings';
        } elseif (($cls === Teds\BitVector::class || $cls === Teds\IntVector::class || $cls === Teds\LowMemoryVector::class) && $s->int(2 * self::$big) === 2 * self::$big - 1) {
            $k = $s->pick([126, 254, 255, 256, 257, 300]) + ($cls === Teds\BitVector::class ? $s->int(9) : 0);
            $m = 1 + $s->int(7);
            $b = $cls === Teds\BitVector::class;
            $vals = [];
            for ($i = 0; $i < $k; $i++) { $vals[] = $b ? $i % $m === 0 : $i % $m; }
            if (!$b && $s->int(2)) { $vals[$s->int($k)] = gen_int($s); }
            $o = new $cls($vals);
            $d = 'many';
        }
        if ($this->c->verbose) { $d = "$cls from $d of " . show($vals); }
        if ($s->int(5) === 4) { [$o, $x] = rebirth($s, $o, $this->unser); $d .= ", $x"; }
        if ($mutate && !coll_immutable($cls)) {
            for ($n = $s->int(5); $n > 0; $n--) {
                $s->mark();
                $x = $this->mutate($o);
                if ($this->c->verbose) { $d .= "; $x"; }
            }
            if ($s->int(8) === 7) { [$o, $x] = rebirth($s, $o, $this->unser); $d .= ", $x"; }
        }
        return [$o, $d];
    }
    private function member($o) {
        // some key of a map / member of a set, without iterating by hand
        $l = $this->kind === 'map' ? $o->keys() : $o->values();
        return $l ? $l[$this->s->int(count($l))] : $this->key();
    }
    /** Any method with arguments of its parameters' types; whether it changes something, fails or does nothing. Returns a description. */
    public ?Closure $callVal = null;
    public function call($o): string {
        static $methods = [];
        $s = $this->s;
        $cls = get_class($o);
        $methods[$cls] ??= array_values(array_filter((new ReflectionClass($cls))->getMethods(ReflectionMethod::IS_PUBLIC), fn($m) => !$m->isStatic() && !$m->isConstructor()));
        $m = $methods[$cls][$s->int(count($methods[$cls]))];
        $n = $o instanceof Teds\CachedIterable ? 5 : count($o);
        $val = $this->callVal ?? $this->val(...);
        $key = $this->callVal ?? $this->key(...);
        $args = [];
        foreach ($m->getParameters() as $p) {
            if ($p->isOptional() && !$p->isVariadic() && $s->int(3) === 0) { break; }
            for ($times = $p->isVariadic() ? $s->int(4) : 1; $times > 0; $times--) {
                $args[] = match (ltrim((string)$p->getType(), '?')) {
                    'int' => $s->int(8) ? $s->int($n + 3) : -$s->int(3), 'bool' => $s->int(2) === 1, 'string' => gen_str($s),
                    'array' => $s->int(2) ? [] : [$key(), $val()], 'iterable' => [$val()],
                    'callable' => fn($x = null) => $s->int(2) ? $x : $val(),
                    default => $s->int(4) ? ($s->int(2) ? $val() : $key()) : $s->int($n + 2),
                };
            }
        }
        $name = $m->getName();
        $r = attempt(fn() => $o->$name(...$args));
        $this->c->takeWarnings();
        return "$name(" . ($this->c->verbose ? implode(', ', array_map(fn($v) => $v instanceof Closure ? 'callback' : show($v), $args)) : '') . ')' . ($r[0] === 'ok' ? '' : " throws {$r[0]}");
    }
    /** One use of an object operator that reads (or fails). Returns a description. */
    public function operator($o): string {
        $s = $this->s;
        $n = $o instanceof Teds\CachedIterable ? 5 : count($o);
        $i = match ($s->int(6)) { 0 => $this->key(), 1 => (string)$s->int($n + 1), 2 => $s->int(2) ? (float)$s->int($n + 1) : $s->int(2) === 1, 3 => $s->int($n + 2) - 1, default => $n ? $s->int($n) : 0 };
        $what = ['[]', 'isset', 'empty', '??', 'list', 'nested', 'nestedwrite', 'reference', 'nestedunset', 'property', 'compare', 'cast', 'spread', 'callable', 'equal', 'yield', 'count', 'props', 'export'];
        $op = $what[$s->int(count($what))];
        $other = fn() => $s->int(3) ? (attempt(fn() => clone $o)[1] ?? null) : $this->val();
        attempt(function () use ($o, $op, $i, $other, $n) {
            switch ($op) {
                case '[]': return $o[$i];
                case 'isset': return isset($o[$i]);
                case 'empty': return empty($o[$i]);
                case '??': return $o[$i] ?? 5;
                case 'list': [$a, $b] = $o; return [$a, $b];
                case 'nested': return isset($o[$i][0]) ? $o[$i][0] : null;
                case 'nestedwrite': return is_array($o[$i]) ? null : count($o);
                case 'reference': $x = &$o[$i]; return null;
                case 'nestedunset': return isset($o[$i]['a']['b']);
                case 'property': return isset($o->n) ? $o->n : ($o->p ?? null);
                case 'compare': return $n < 40 && $o < $other();
                case 'equal': return $n < 40 && $o == $other();
                case 'cast': return [(bool)$o, (array)$o];
                case 'spread': return [...$o];
                case 'callable': $f = $o->contains(...); return $f($i);
                case 'yield': return (function () use ($o) { yield from $o; })()->current();
                case 'count': return [count($o), is_countable($o), is_iterable($o), iterator_count($o)];
                case 'props': return [get_object_vars($o), get_mangled_object_vars($o)];
                case 'export': if (!$o instanceof Teds\CachedIterable) { return print_r($o, true); }
            }
        });
        $this->c->takeWarnings();
        return "operator $op " . ($this->c->verbose ? show($i) : '');
    }
    /** One random change that cannot fail. Returns a description. */
    public function mutate($o): string {
        $s = $this->s;
        $n = count($o);
        $verbose = $this->c->verbose;
        if ($s->int(12) === 11) { return $this->call($o); }
        $sh = fn(...$v) => $verbose ? implode(', ', array_map('show', $v)) : '';
        switch ($this->kind) {
            case 'seq':
                $op = $s->pickw($n ? ['push' => 6, 'pushFront' => 3, 'insert' => 4, 'pop' => 3, 'shift' => 3, 'set' => 3, 'unset' => 4, 'clear' => 1, 'size' => 1, 'append' => 1, 'reserve' => 1, 'shrink' => 1] : ['push' => 4, 'pushFront' => 2, 'insert' => 1, 'size' => 1, 'append' => 1, 'clear' => 1, 'reserve' => 1, 'shrink' => 1]);
                switch ($op) {
                    case 'push': $v = $this->valList(4); $o->push(...$v); return "push({$sh(...$v)})";
                    case 'append': $v = $this->val(); $o[] = $v; return "[] = {$sh($v)}";
                    case 'pushFront': $v = $this->valList(3); $o->pushFront(...$v); return "pushFront({$sh(...$v)})";
                    case 'insert': $i = $s->int($n + 1); $v = $this->valList(4); $o->insert($i, ...$v); return "insert($i, {$sh(...$v)})";
                    case 'pop': $o->pop(); return 'pop()';
                    case 'shift': $o->shift(); return 'shift()';
                    case 'set': $i = $s->int($n); $v = $this->val(); if ($s->int(2)) { $o[$i] = $v; } else { $o->set($i, $v); } return "set($i, {$sh($v)})";
                    case 'unset': $i = $s->int($n); unset($o[$i]); return "unset($i)";
                    case 'clear': $o->clear(); return 'clear()';
                    case 'reserve': if ($o instanceof Teds\Vector) { $k = $s->int($n + 12); $o->reserve($k); return "reserve($k)"; } $o->push(); return 'push()';
                    case 'shrink': if ($o instanceof Teds\Vector) { $o->shrinkToFit(); return 'shrinkToFit()'; } $o->pushFront(); return 'pushFront()';
                    default:
                        $k = $s->int($n + 5);
                        if ($o instanceof Teds\Vector) { $v = $this->val(); $o->setSize($k, $v); return "setSize($k, {$sh($v)})"; }
                        if ($o instanceof Teds\BitVector) { $v = $this->val(); $o->setSize($k, $v); return "setSize($k, {$sh($v)})"; }
                        return 'nothing';
                }
            case 'pairs':
                $op = $s->pickw($n ? ['push' => 6, 'pop' => 3, 'key' => 2, 'value' => 3, 'clear' => 1, 'size' => 2, 'shrink' => 1] : ['push' => 3, 'size' => 1, 'shrink' => 1, 'clear' => 1]);
                switch ($op) {
                    case 'push': $k = $this->key(); $v = $this->val(); $o->push($k, $v); return "push({$sh($k, $v)})";
                    case 'pop': $o->pop(); return 'pop()';
                    case 'key': $i = $s->int($n); $k = $this->key(); $o->setKeyAt($i, $k); return "setKeyAt($i, {$sh($k)})";
                    case 'value': $i = $s->int($n); $v = $this->val(); $o->setValueAt($i, $v); return "setValueAt($i, {$sh($v)})";
                    case 'clear': $o->clear(); return 'clear()';
                    case 'shrink': $o->shrinkToFit(); return 'shrinkToFit()';
                    default: $k = $s->int($n + 3); $o->setSize($k); return "setSize($k)";
                }
            case 'heap':
                $op = $s->pickw($n ? ['add' => 6, 'extract' => 4, 'next' => 1, 'clear' => 1] : ['add' => 4, 'clear' => 1]);
                switch ($op) {
                    case 'add': $v = $this->val(); $o->add($v); return "add({$sh($v)})";
                    case 'extract': $o->extract(); return 'extract()';
                    case 'next': $o->next(); return 'next()';
                    default: $o->clear(); return 'clear()';
                }
            case 'map':
                $op = $s->pickw($n ? ['put' => 7, 'overwrite' => 3, 'del' => 5, 'miss' => 1, 'clear' => 1, 'pop' => 2, 'shift' => 2] : ['put' => 6, 'miss' => 1, 'clear' => 1]);
                switch ($op) {
                    case 'put': $k = $this->key(); $v = $this->val(); $o[$k] = $v; return "[{$sh($k)}] = {$sh($v)}";
                    case 'overwrite': $k = $this->member($o); $v = $this->val(); $o[$k] = $v; return "[{$sh($k)}] = {$sh($v)}";
                    case 'pop': if (!$o instanceof Teds\StrictHashMap) { $o->pop(); return 'pop()'; } // fall through
                    case 'shift': if (!$o instanceof Teds\StrictHashMap) { $o->shift(); return 'shift()'; } // fall through
                    case 'del': $k = $this->member($o); unset($o[$k]); return "unset({$sh($k)})";
                    case 'miss': $k = $this->key(); unset($o[$k]); return "unset({$sh($k)})";
                    default: $o->clear(); return 'clear()';
                }
            case 'set':
            case 'sorted':
                $op = $s->pickw($n ? ['add' => 7, 'del' => 5, 'miss' => 1, 'clear' => 1, 'pop' => 2, 'shift' => 2] : ['add' => 6, 'miss' => 1, 'clear' => 1]);
                switch ($op) {
                    case 'add': $k = $this->val(); $o->add($k); return "add({$sh($k)})";
                    case 'pop': if (!$o instanceof Teds\StrictHashSet) { $o->pop(); return 'pop()'; } // fall through
                    case 'shift': if (!$o instanceof Teds\StrictHashSet && $this->kind === 'set') { $o->shift(); return 'shift()'; } // fall through
                    case 'del': $k = $this->member($o); $o->remove($k); return "remove({$sh($k)})";
                    case 'miss': $k = $this->val(); $o->remove($k); return "remove({$sh($k)})";
                    default: $o->clear(); return 'clear()';
                }
        }
        return '';
    }
}

/** Only values whose serialized form brings back an identical value (no objects, resources). */
function plain_data($v, int $d = 0): bool {
    if (is_array($v)) {
        if ($d > 8) { return false; }
        foreach ($v as $x) { if (!plain_data($x, $d + 1)) { return false; } }
        return true;
    }
    return is_scalar($v) || $v === null;
}
/** The same collection again with another history: a copy, or rebuilt from an exported or serialized form. @return array{object, string} */
function rebirth(Src $s, $o, bool $unserialize = true): array {
    $cls = get_class($o);
    $pairs = in_array($cls, PAIR_CLASSES, true) || in_array($cls, ALL_MAPS, true);
    switch ($s->int(4)) {
        case 0:
            if ($o instanceof Teds\CachedIterable) { break; }
            return [clone $o, 'clone'];
        case 1: return [$cls::__set_state($pairs ? $o->toPairs() : $o->values()), '__set_state'];
        case 2:
            if (!$unserialize || !plain_data($pairs ? $o->toPairs() : $o->values())) { break; }
            return [unserialize(serialize($o)), 'unserialize(serialize())'];
        default:
            if (!$unserialize || !($o instanceof Teds\BitVector || $o instanceof Teds\IntVector || $o instanceof Teds\ImmutableSortedStringSet)) { break; }
            return [$cls::unserialize($o->serialize()), "$cls::unserialize(serialize())"];
    }
    return [$o, 'itself'];
}

/** The contents as a list of [key, value] pairs, in order, without consuming anything. */
function coll_pairs($o): array {
    if (in_array(get_class($o), PAIR_CLASSES, true) || in_array(get_class($o), ALL_MAPS, true)) { return $o->toPairs(); }
    $r = [];
    $set = in_array(get_class($o), ALL_SETS, true);
    foreach ($o->values() as $i => $v) { $r[] = [$set ? $v : $i, $v]; }
    return $r;
}
/** coll_pairs as a string in which collections are replaced by class and contents, other objects by identity. */
function deep_canon($v, int $d = 0): string {
    if (is_array($v)) {
        if ($d > 6) { return '*'; }
        $r = 'a' . count($v) . '[';
        foreach ($v as $k => $x) { $y = deep_canon($x, $d + 1); $r .= (is_int($k) ? "i$k" : 's' . strlen($k) . ":$k") . '=' . strlen($y) . ":$y,"; }
        return $r . ']';
    }
    if (is_object($v) && in_array(get_class($v), ALL_CLASSES, true)) {
        if ($d > 6) { return '*'; }
        return get_class($v) . deep_canon(coll_pairs($v), $d + 1);
    }
    if (is_float($v)) { return is_nan($v) ? 'dn' : 'd' . bin2hex(pack('E', $v)); }
    return canon($v);
}
function clone_or_self($o) { return $o instanceof Teds\CachedIterable ? $o : clone $o; }
