<?php
// Every way of reading a collection describes the same contents, whatever was read and changed before.

/** A dump without its header and with blanks collapsed, so that an object's can be compared with an array's. */
function dump_body(string $t, string $how): string {
    $t = trim(preg_replace('/\s+/', ' ', $t));
    if ($how === 'var_dump') { return substr($t, strpos($t, '{')); }
    if ($how === 'print_r') { return substr($t, strpos($t, '(')); }
    $h = '__set_state(array(';
    $p = strpos($t, $h);
    return trim($t[0] === '\\' ? substr($t, $p + strlen($h), -2) : substr($t, strlen('array ('), -1));
}
/** Further changes that CollGen::mutate does not make. */
function c24_change(Src $s, CollGen $g, $o): string {
    $n = count($o);
    $cls = get_class($o);
    switch ($g->kind) {
        case 'seq':
            switch ($s->int(12)) {
                case 0: if ($n) { $o->offsetSet($s->int($n), $g->val()); } return 'offsetSet';
                case 1: if ($n) { $o->offsetUnset($s->int($n)); } return 'offsetUnset';
                case 2: if ($n) { $o->popFront(); } return 'popFront';
                case 3: $o->unshift($g->val(), $g->val()); return 'unshift';
                case 4: if ($cls === Teds\BitVector::class && $n >= 8) { $o->setInt8($s->int($n >> 3), $s->int(256) - 128); return 'setInt8'; } if ($n) { $o->set($s->int($n), $g->val()); } return 'set';
                case 5: if ($cls === Teds\BitVector::class && $n >= 16) { $o->setInt16($s->int($n >> 4), $s->int(65536)); return 'setInt16'; } if ($n) { $o[$s->int($n)] = $g->val(); } return '[]=';
                case 6: if ($cls === Teds\Vector::class) { $o->reserve($n + $s->int(20)); } return 'reserve';
                case 7: if ($cls === Teds\Vector::class) { $o->shrinkToFit(); } return 'shrinkToFit';
                case 8: if ($n) { $m = seq_alias($s, $cls, 'set'); $o->$m($s->int($n), $g->val()); } return 'set';
                case 9: $m = seq_alias($s, $cls, 'push'); $o->$m($g->val()); return 'push';
                case 10: if ($cls === Teds\Vector::class) { $o->setSize($s->int($n + 3)); } elseif ($cls === Teds\BitVector::class) { $o->setSize($s->int($n + 9)); } return 'setSize';
                default: $o->insert($s->int($n + 1), $g->val()); return 'insert';
            }
        case 'map':
            $ks = $o->keys();
            switch ($s->int(4)) {
                case 0: $o->offsetSet($ks ? $ks[$s->int($n)] : 1, $g->val()); return 'offsetSet';
                case 1: if ($ks) { $o->offsetUnset($ks[$s->int($n)]); } return 'offsetUnset';
                case 2: $o->offsetSet($g->key(), $g->val()); return 'offsetSet';
                default: unset($o[$g->keys->probe()]); return 'unset';
            }
        case 'set': case 'sorted':
            if ($s->int(2)) { $v = $o->values(); $o->add($v ? $v[$s->int($n)] : $g->val()); return 'add again'; }
            $o->remove($g->val());
            return 'remove';
        case 'pairs':
            for ($i = 0; $i < 3; $i++) { $o->push($g->key(), $g->val()); }
            return 'push three';
        default: $o->add($g->val()); return 'add';
    }
}
const C24_VIEWS = ['count' => 2, 'values' => 3, 'toArray' => 4, 'keys' => 2, 'toPairs' => 2, 'foreach' => 4, 'foreachv' => 2, 'nested' => 2, 'iterator' => 3, 'iterator_to_array' => 3, 'spread' => 1, 'yield' => 1, 'members' => 5, 'probe' => 5,
    'var_export' => 4, 'var_dump' => 4, 'print_r' => 3, 'cast' => 6, 'json' => 4, 'jsonSerialize' => 2, 'vars' => 1, 'offsets' => 3, 'ends' => 2, 'clone' => 1, 'serialize' => 1, 'compare' => 2, 'twice' => 2];
function c24_view(Src $s, Ctx $c, CollGen $g, $o, array $exp, string $view): void {
    $cls = get_class($o);
    $short = substr($cls, 5);
    $kind = $g->kind;
    $n = count($exp);
    $vals = array_map(fn($p) => $p[1], $exp);
    $keyed = $kind === 'map' || $kind === 'pairs';
    $list = $keyed ? $exp : $vals;
    $bad = function (string $what, $got, $want) use ($c, $short) { $c->fail("$short: $what gives " . (is_string($got) ? substr($got, 0, 600) : show($got)) . ', but the contents are ' . (is_string($want) ? substr($want, 0, 600) : show($want))); };
    $hidden = $cls === Teds\LowMemoryVector::class;
    $c->doing = "$short $view";
    switch ($view) {
        case 'count':
            if ([$o->count(), count($o), count($o, COUNT_RECURSIVE), $o->isEmpty()] !== [$n, $n, $n, $n === 0]) { $bad('count/isEmpty', [$o->count(), count($o), $o->isEmpty()], $n); }
            break;
        case 'values': if (!same($o->values(), $vals)) { $bad('values()', $o->values(), $vals); } break;
        case 'keys': if (method_exists($o, 'keys') && !same($o->keys(), array_column($exp, 0))) { $bad('keys()', $o->keys(), array_column($exp, 0)); } break;
        case 'toPairs': if (method_exists($o, 'toPairs') && !same($o->toPairs(), $exp)) { $bad('toPairs()', $o->toPairs(), $exp); } break;
        case 'toArray':
            $r = attempt(fn() => $o->toArray());
            $w = count($c->takeWarnings());
            if ($kind === 'map' || $kind === 'pairs' || $kind === 'set') { $e = ref_to_array($exp); }
            elseif ($kind === 'heap') { $e = ref_to_array(array_map(fn($v) => [$v, $v], $vals)); }
            else { $e = ['ok', $vals]; }
            $we = count($c->takeWarnings());
            if ($e[0] !== 'ok') { $e = ['TypeError']; }
            expect_outcome($c, "$short: toArray() of " . ($c->verbose ? show($exp) : ''), $e, $r);
            if ($w !== $we) { $c->fail("$short: toArray() raised $w diagnostics, building the array raises $we"); }
            break;
        case 'foreach': case 'foreachv': case 'nested':
            if ($kind === 'heap') { $o = clone $o; usort($exp, fn($a, $b) => ref_compare($a[1], $b[1]) * ($cls === Teds\StrictMinHeap::class ? 1 : -1)); }
            $i = 0;
            if ($view === 'foreachv') {
                foreach ($o as $v) { if ($i >= $n || !($kind === 'heap' ? ref_compare($v, $exp[$i][1]) === 0 : same($v, $exp[$i][1]))) { $bad("foreach, entry $i", $v, $exp); } $i++; }
            } else {
                $inner = $view === 'nested' && $kind !== 'heap' ? $s->int($n + 1) : -1;
                foreach ($o as $k => $v) {
                    if ($i >= $n || !($kind === 'heap' ? ref_compare($v, $exp[$i][1]) === 0 : same($v, $exp[$i][1]) && same($k, $exp[$i][0]))) { $bad("foreach, entry $i", [$k, $v], $exp); }
                    if ($i === $inner) { c24_view($s, $c, $g, $o, $exp, $s->pick(['foreach', 'iterator', 'cast', 'toArray', 'var_dump', 'json', 'members'])); }
                    $i++;
                }
            }
            if ($i !== $n) { $bad("foreach, $i entries", $i, $exp); }
            break;
        case 'iterator':
            if ($kind === 'heap') { break; }
            $it = $o->getIterator();
            if ($s->int(2)) { $it = new IteratorIterator($it); $it->rewind(); }
            for ($i = 0; $it->valid(); $it->next(), $i++) {
                if ($i >= $n || !same($it->current(), $exp[$i][1]) || !same($it->key(), $exp[$i][0])) { $bad("getIterator(), entry $i", [$it->key(), $it->current()], $exp); }
            }
            if ($i !== $n) { $bad("getIterator(), $i entries", $i, $exp); }
            break;
        case 'iterator_to_array':
            if ($kind === 'heap') { break; }
            if (iterator_count($o) !== $n) { $bad('iterator_count()', iterator_count($o), $n); }
            if (!same(iterator_to_array($o, false), $vals)) { $bad('iterator_to_array(, false)', iterator_to_array($o, false), $vals); }
            $e = attempt(fn() => iterator_to_array(pair_gen($exp)));
            $c->takeWarnings();
            $r = attempt(fn() => iterator_to_array($o));
            $c->takeWarnings();
            expect_outcome($c, "$short: iterator_to_array()", $e, $r);
            break;
        case 'spread': if ($kind !== 'heap' && !$keyed && $kind !== 'set' && !same([...$o], $vals)) { $bad('[...$o]', [...$o], $vals); } break;
        case 'yield':
            if ($kind === 'heap') { break; }
            $r = [];
            foreach ((function () use ($o) { yield from $o; })() as $k => $v) { $r[] = [$k, $v]; }
            if (!same($r, $exp)) { $bad('yield from', $r, $exp); }
            break;
        case 'members':
            $inv = known_bitvector_inverted($cls);
            if ($inv) { // known finding F01: exactly the inverted answer
                foreach ([true, false] as $v) { $i = array_search(!$v, $vals, true); if ($o->contains($v) !== ($i !== false) || $o->indexOf($v) !== ($i === false ? null : $i)) { $bad('contains/indexOf(' . show($v) . ')', [$o->contains($v), $o->indexOf($v)], $exp); } }
                break;
            }
            foreach (array_slice($exp, $s->int(max(1, $n)), 6) as [$k, $v]) {
                if (has_nan($v) || has_nan($k)) { continue; }
                $k = fresh_copy($k);
                $v = fresh_copy($v);
                if (!$o->contains($v)) { $bad('contains(' . show($v) . ')', false, $exp); }
                if ($kind === 'seq') { $i = array_search($v, $vals, true); if ($o->indexOf($v) !== $i) { $bad('indexOf(' . show($v) . ')', $o->indexOf($v), $exp); } }
                if ($keyed && !$o->containsKey($k)) { $bad('containsKey(' . show($k) . ')', false, $exp); }
                if ($kind === 'map' && !same($o->get($k), $v)) { $bad('get(' . show($k) . ')', $o->get($k), $exp); }
                if ($kind === 'pairs') {
                    if ($o->indexOfValue($v) !== pair_search($exp, 1, $v)) { $bad('indexOfValue(' . show($v) . ')', $o->indexOfValue($v), $exp); }
                    if ($o->indexOfKey($k) !== pair_search($exp, 0, $k)) { $bad('indexOfKey(' . show($k) . ')', $o->indexOfKey($k), $exp); }
                    if (!$o->containsValue($v)) { $bad('containsValue(' . show($v) . ')', false, $exp); }
                }
            }
            $c->takeWarnings();
            break;
        case 'probe':
            $v = no_nested_nan($g->vals->probe());
            if ($kind === 'set') { $e = false; foreach ($vals as $x) { $e = $e || strict_eq($x, $v); } }
            elseif ($cls === Teds\ImmutableSortedStringSet::class || $kind === 'sorted') { $e = in_array($v, $vals, true); }
            else { $e = in_array($v, $vals, true); }
            if (known_bitvector_inverted($cls)) { break; }
            $r = attempt(fn() => $o->contains($v));
            expect_outcome($c, "$short: contains(" . show($v) . ') with ' . ($c->verbose ? show($exp) : ''), ['ok', $e], $r);
            if ($kind === 'seq' && (coll_elem_kinds($cls, '') === '' || is_int($v))) { // indexOf(int) converts other types
                $i = array_search($v, $vals, true);
                expect_outcome($c, "$short: indexOf(" . show($v) . ')', ['ok', $i === false ? null : $i], attempt(fn() => $o->indexOf($v)));
            }
            if ($keyed) {
                $k = no_nested_nan($g->keys->probe());
                $e = false;
                foreach ($exp as $p) { $e = $e || ($kind === 'map' ? strict_eq($p[0], $k) : $p[0] === $k); }
                expect_outcome($c, "$short: containsKey(" . show($k) . ')', ['ok', $e], attempt(fn() => $o->containsKey($k)));
                if ($kind === 'map') { expect_outcome($c, "$short: get(" . show($k) . ', default) is the default', ['ok', !$e], attempt(fn() => $o->get($k, $c) === $c)); }
            }
            $c->takeWarnings();
            break;
        case 'cast':
            $r = (array)$o;
            if (!same($r, $list)) { $bad('(array)', $r, $list); }
            break;
        case 'var_export':
            if ($hidden) { break; }
            $t = dump_body(var_export($o, true), $view);
            $e = dump_body(var_export($list, true), $view);
            if ($t !== $e) { $bad('var_export()', $t, $e); }
            if (!str_starts_with(var_export($o, true), "\\$cls::__set_state(")) { $bad('var_export()', var_export($o, true), $cls); }
            break;
        case 'var_dump':
            if ($hidden) { break; }
            ob_start(); var_dump($o); $t = dump_body(ob_get_clean(), $view);
            ob_start(); var_dump($list); $e = dump_body(ob_get_clean(), $view);
            if ($t !== $e) { $bad('var_dump()', $t, $e); }
            break;
        case 'print_r':
            if ($hidden) { break; }
            $t = dump_body(print_r($o, true), $view);
            $e = dump_body(print_r($list, true), $view);
            if ($t !== $e) { $bad('print_r()', $t, $e); }
            break;
        case 'json':
            $flags = $s->pick([0, JSON_PARTIAL_OUTPUT_ON_ERROR, JSON_PRESERVE_ZERO_FRACTION | JSON_PARTIAL_OUTPUT_ON_ERROR, JSON_PRETTY_PRINT | JSON_PARTIAL_OUTPUT_ON_ERROR, JSON_FORCE_OBJECT]);
            $r = [json_encode($o, $flags), json_last_error()];
            $e = [json_encode($kind === 'heap' ? (object)$list : $list, $flags), json_last_error()];
            if ($r !== $e) { $bad('json_encode()', $r, $e); }
            break;
        case 'jsonSerialize':
            if (method_exists($o, 'jsonSerialize') && !same($o->jsonSerialize(), $list)) { $bad('jsonSerialize()', $o->jsonSerialize(), $list); }
            break;
        case 'vars':
            get_object_vars($o); get_mangled_object_vars($o); spl_object_id($o); spl_object_hash($o);
            isset($o->x);
            foreach ([0, 1] as $i) { property_exists($o, (string)$i); }
            break;
        case 'offsets':
            for ($j = 0; $j < min($n, 4); $j++) {
                $i = $s->int($n);
                if ($kind === 'seq' || ($kind === 'sorted' && method_exists($o, 'get'))) { if (!same($o->get($i), $vals[$i])) { $bad("get($i)", $o->get($i), $vals); } }
                if ($kind === 'seq') { if (!same($o[$i], $vals[$i]) || !same($o->offsetGet($i), $vals[$i]) || !$o->containsKey($i) || isset($o[$i]) !== ($vals[$i] !== null)) { $bad("[$i]", $o[$i], $vals); } }
                if ($kind === 'map') { $k = $exp[$i][0]; if (!same($o[$k], $vals[$i]) || !same($o->offsetGet($k), $vals[$i])) { $bad('[' . show($k) . ']', $o[$k], $exp); } }
                if ($kind === 'pairs') { if (!same($o->valueAt($i), $vals[$i]) || !same($o->keyAt($i), $exp[$i][0])) { $bad("keyAt/valueAt($i)", [$o->keyAt($i), $o->valueAt($i)], $exp); } }
            }
            break;
        case 'ends':
            foreach ([['first', 0], ['last', $n - 1]] as [$m, $i]) {
                if (!method_exists($o, $m)) { continue; }
                expect_outcome($c, "$short: $m()", $n ? ['ok', $vals[$i]] : [UNDERFLOW], attempt(fn() => $o->$m()));
            }
            foreach ([['bottom', 0], ['top', $n - 1]] as [$m, $i]) {
                if ($kind !== 'seq' || !method_exists($o, $m)) { continue; }
                expect_outcome($c, "$short: $m()", $n ? ['ok', $vals[$i]] : [UNDERFLOW], attempt(fn() => $o->$m()));
            }
            break;
        case 'clone':
            if ($cls === Teds\CachedIterable::class) { break; }
            $x = clone $o;
            c24_view($s, $c, $g, $x, $exp, $s->pick(['cast', 'values', 'json', 'toArray']));
            break;
        case 'serialize':
            if (has_object($exp)) { break; }
            $x = unserialize(serialize($o));
            if (deep_canon(coll_pairs($x)) !== deep_canon($exp)) { $bad('serialize()', coll_pairs($x), $exp); }
            break;
        case 'compare':
            // comparing reads both sides' properties
            $r = $o == $o;
            $r = $o === $o;
            break;
        case 'twice': // the same view twice: what the first one cached must not show
            $v = $s->pick(['cast', 'var_dump', 'var_export', 'json', 'toArray', 'values', 'print_r']);
            c24_view($s, $c, $g, $o, $exp, $v);
            c24_view($s, $c, $g, $o, $exp, $v);
            break;
    }
}
return function (Src $s, Ctx $c): void {
    $cls = ALL_CLASSES[$s->int(count(ALL_CLASSES))];
    $c->label($cls);
    $kinds = $s->pick(['niiffssaaoor', 'iii', 's', 'nif', 'ia', 'iso']);
    $g = new CollGen($s, $c, $cls, $kinds, 8);
    [$o, $d] = $g->make($s->chance(1, 12) ? 90 : 12);
    $c->say('$o = ' . $d);
    $imm = coll_immutable($cls);
    $exp = coll_pairs(clone_or_self($o));
    $held = [];
    $its = [];
    while ($s->more(20)) {
        $c->ops++;
        if (!$imm && $s->int(5) < 2) {
            $d = $s->int(2) ? $g->mutate($o) : c24_change($s, $g, $o);
            $c->say("change: $d");
            $exp = coll_pairs(clone $o);
            if (count($exp) > 400) { $o->clear(); $exp = []; }
            continue;
        }
        $view = $s->pickw(C24_VIEWS);
        $c->say("read: $view");
        if (count($exp) > 1) { $c->nt(); }
        c24_view($s, $c, $g, $o, $exp, $view);
        if ($s->int(6) === 5) { // keep what was read: later changes must not reach it, nor may it hold up later reads
            $a = $s->int(3) ? (array)$o : ($s->int(2) ? $o->values() : attempt(fn() => $o->toArray())[1]);
            $c->takeWarnings();
            if (count($held) < 4) { $held[] = [$a, deep_canon($a)]; }
        }
        if (!same(coll_pairs(clone_or_self($o)), $exp)) { $c->fail("reading $view changed the contents from " . show($exp) . ' to ' . show(coll_pairs($o))); }
        if ($c->warnings) { $c->fail("$view: diagnostic {$c->warnings[0]}"); }
    }
    foreach ($held as [$a, $x]) { if (deep_canon($a) !== $x) { $c->fail('an array read from the collection changed later'); } }
    foreach (array_keys(C24_VIEWS) as $view) { c24_view($s, $c, $g, $o, $exp, $view); }
    $c->takeWarnings();
    coll_check($c, $o, 'at the end');
};
