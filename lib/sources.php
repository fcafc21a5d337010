<?php
// Iterables of every kind that yield a given list of [key, value] pairs.

final class PairAgg implements IteratorAggregate {
    public function __construct(private array $pairs) {}
    public function getIterator(): Iterator { foreach ($this->pairs as [$k, $v]) { yield $k => $v; } }
}
final class PairIter implements Iterator {
    private int $i = 0;
    public function __construct(private array $pairs) {}
    public function current(): mixed { return $this->pairs[$this->i][1]; }
    public function key(): mixed { return $this->pairs[$this->i][0]; }
    public function next(): void { $this->i++; }
    public function rewind(): void { $this->i = 0; }
    public function valid(): bool { return $this->i < count($this->pairs); }
}
function pair_gen(array $pairs) { foreach ($pairs as [$k, $v]) { yield $k => $v; } }
function &pair_gen_ref(array $pairs) { foreach ($pairs as [$k, $v]) { $x = $v; yield $k => $x; unset($x); } }
/** Generator of temporaries: nobody else holds the yielded value. */
function pair_gen_tmp(array $pairs) {
    foreach ($pairs as $i => $_) {
        $k = fresh_copy($pairs[$i][0]);
        $v = fresh_copy($pairs[$i][1]);
        $pairs[$i] = null;
        yield $k => $v;
        $k = $v = null;
    }
}

/** True if the pairs can be an array with these keys in this order. */
function pairs_fit_array(array $pairs): bool {
    $seen = [];
    foreach ($pairs as [$k, $_]) {
        if (!is_int($k) && !is_string($k)) { return false; }
        if (is_string($k) && (string)(int)$k === $k) { return false; }
        if (isset($seen["\0" . gettype($k) . $k])) { return false; }
        $seen["\0" . gettype($k) . $k] = true;
    }
    return true;
}

const SRC_KINDS = ['array', 'gen', 'agg', 'iter', 'genref', 'gentmp', 'ArrayIterator', 'ArrayObject', 'ImmutableIterable', 'CachedIterable', 'MutableIterable'];

/** @return array{0: iterable, 1: string} */
function make_source(Src $s, array $pairs, ?string $kind = null): array {
    $fits = pairs_fit_array($pairs);
    $kind ??= SRC_KINDS[$s->int(count(SRC_KINDS))];
    if (!$fits && ($kind === 'array' || $kind === 'ArrayIterator' || $kind === 'ArrayObject')) { $kind = 'gen'; }
    $arr = [];
    if ($fits) { foreach ($pairs as [$k, $v]) { $arr[$k] = $v; } }
    switch ($kind) {
        case 'array':
            switch ($s->int(6)) {
                case 5:     // the next free key is not the number of elements
                    if (array_key_exists(PHP_INT_MAX, $arr)) { return [$arr, 'array']; }
                    $arr[] = 1;
                    unset($arr[array_key_last($arr)]);
                    return [$arr, 'array(unset at the end)'];
                case 4: if (!empty($GLOBALS['__nocopy'])) { return [$arr, 'array']; } return [immutable($arr), 'array(immutable)'];
                case 1:     // hole in a packed array / tombstone in a hash
                    if (!array_key_exists('~tmp', $arr)) { $arr = ['~tmp' => 1] + $arr; unset($arr['~tmp']); }
                    return [$arr, 'array(tombstone)'];
                case 2:     // elements are references
                    $r = [];
                    foreach ($arr as $k => $v) { $x = $v; $r[$k] = &$x; unset($x); }
                    return [$r, 'array(refs)'];
                case 3:     // elements are references also held elsewhere
                    $r = [];
                    foreach ($arr as $k => $v) { $GLOBALS['__refs'][] = $v; $r[$k] = &$GLOBALS['__refs'][array_key_last($GLOBALS['__refs'])]; }
                    if (count($GLOBALS['__refs'] ?? []) > 300) { unset($GLOBALS['__refs']); $GLOBALS['__refs'] = []; }
                    return [$r, 'array(shared refs)'];
                default: return [$arr, 'array'];
            }
        case 'agg': return [new PairAgg($pairs), $kind];
        case 'iter': return [new PairIter($pairs), $kind];
        case 'genref': return [pair_gen_ref($pairs), $kind];
        case 'gentmp': if (!empty($GLOBALS['__nocopy'])) { return [pair_gen($pairs), 'gen']; } return [pair_gen_tmp($pairs), $kind];
        case 'ArrayIterator': return [new ArrayIterator($arr), $kind];
        case 'ArrayObject': return [new ArrayObject($arr), $kind];
        case 'ImmutableIterable': return [Teds\ImmutableIterable::fromPairs($pairs), $kind];
        case 'MutableIterable': return [Teds\MutableIterable::fromPairs($pairs), $kind];
        case 'CachedIterable': return [new Teds\CachedIterable(pair_gen($pairs)), $kind];
        default: return [pair_gen($pairs), 'gen'];
    }
}
/** Source for a plain list of values: arbitrary keys, since sequences ignore them. */
function make_value_source(Src $s, array $vals): array {
    $pairs = [];
    $mode = $s->int(4);
    foreach (array_values($vals) as $i => $v) {
        switch ($mode) {
            case 0: case 1: $k = $i; break;
            case 2: $k = 'k' . $i; break;
            default: $k = $s->chance(1, 2) ? 1000 - $i : 'x' . $i; break;
        }
        $pairs[] = [$k, $v];
    }
    return make_source($s, $pairs);
}
