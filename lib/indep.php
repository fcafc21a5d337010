<?php
// Independence: a world of collections, arrays and referenced variables; changing one thing changes nothing else.

final class World {
    /** @var object[] */ public array $colls = [];
    /** @var array[] arrays taken from or given to collections */ public array $arrs = [];
    /** @var array variables that arrays refer to */ public array $refs = [];
    /** @var array{0: Iterator, 1: array, 2: int, 3: int}[] iterator, entries of its collection, position, collection id */ public array $its = [];
    public int $id = 0;
    public function image(): array {
        $r = [];
        foreach ($this->colls as $i => $o) { $r["c$i"] = deep_canon(coll_pairs($o)); }
        foreach ($this->arrs as $i => $a) { $r["a$i"] = deep_canon($a); }
        foreach ($this->refs as $i => $_) { $r["r$i"] = deep_canon($this->refs[$i]); }
        return $r;
    }
}

/** Some array a collection hands out. */
function array_view(Src $s, $o): array {
    $kind = coll_kind(get_class($o));
    switch ($s->int(8)) {
        case 0: return ['values()', $o->values()];
        case 1: $r = attempt(fn() => $o->toArray()); return ['toArray()', is_array($r[1]) ? $r[1] : []];
        case 2: return method_exists($o, 'toPairs') ? ['toPairs()', $o->toPairs()] : ['values()', $o->values()];
        case 3: return method_exists($o, 'keys') ? ['keys()', $o->keys()] : ['values()', $o->values()];
        case 4: return ['(array)', (array)$o];
        case 5: return ['__serialize()', $o->__serialize()];
        case 6: return ['get_mangled_object_vars()', get_mangled_object_vars($o)];
        default: $r = method_exists($o, 'jsonSerialize') ? attempt(fn() => $o->jsonSerialize()) : ['ok', []]; return ['jsonSerialize()', is_array($r[1]) ? $r[1] : []];
    }
}
/** Changes an array in some way. */
function array_vandalize(Src $s, array &$a, CollGen $g): string {
    $ks = array_keys($a);
    $k = $ks ? $ks[$s->int(count($ks))] : null;
    switch ($s->int($k === null ? 2 : 11)) {
        case 0: $a['new' . count($a)] = $g->val(); return 'append';
        case 1: $a = []; return 'empty';
        case 2: $a[$k] = $g->val(); return 'assign an element';
        case 3: unset($a[$k]); return 'unset an element';
        case 4: if (is_array($a[$k])) { $a[$k]['extra'] = 1; return 'append to an element'; } $a[$k] = 'other'; return 'assign an element';
        case 5: $r = &$a[$k]; $r = $g->val(); unset($r); return 'assign through a reference';
        case 6: shuffle($a); return 'shuffle';
        case 7: array_pop($a); return 'pop';
        case 8: foreach ($a as &$v) { if (is_array($v)) { foreach ($v as &$w) { $w = 'nested'; } unset($w); } elseif (is_string($v) && $v !== '') { $v[0] = '#'; } else { $v = -1; } } unset($v); return 'rewrite all';
        case 9: if (is_string($a[$k]) && $a[$k] !== '') { $a[$k][0] = '@'; return 'change a character'; } $a[$k] = null; return 'assign null';
        default: usort($a, fn($x, $y) => strcmp(gettype($y), gettype($x))); return 'sort';
    }
}

function indep_run(Src $s, Ctx $c, array $classes, int $avg = 14): void {
    $w = new World();
    $cls = $classes[$s->int(count($classes))];
    $c->label($cls);
    $kind = coll_kind($cls);
    $imm = coll_immutable($cls);
    $g = new CollGen($s, $c, $cls, 'niifssaaao', 6);
    $free = coll_elem_kinds($cls, '') === '';
    $pool = [$g->vals->vals, $g->keys->vals];
    $poolImage = deep_canon($pool);
    $add = function ($o) use ($w) { $w->colls[$w->id] = $o; return $w->id++; };
    // mark: returns the name of the thing the step may change
    while ($s->more($avg)) {
        $c->ops++;
        $ids = array_keys($w->colls);
        $op = !$ids ? $s->pick(['new', 'newrefs']) : $s->pickw(['new' => 2, 'newrefs' => 3, 'mutate' => 10, 'clone' => 5, 'view' => 5, 'vandal' => $w->arrs ? 7 : 0, 'fromarr' => $w->arrs ? 4 : 0, 'fromcoll' => 2,
            'setref' => $w->refs ? 6 : 0, 'indirect' => 4, 'compound' => 2, 'roundtrip' => 1, 'iter' => 3, 'callback' => 2, 'drop' => 2, 'element' => 2, 'dump' => 1]);
        $before = $w->image();
        $touch = '';
        $d = $op;
        $c->doing = $op;
        $cid = $ids ? $ids[$s->int(count($ids))] : 0;
        $o = $w->colls[$cid] ?? null;
        $full = count($w->colls) >= 5;
        switch ($op) {
            case 'new':
                if ($full) { break; }
                [$x, $d] = $g->make(8);
                $add($x);
                unset($x);
                break;
            case 'newrefs':
                // an array whose elements are references to variables
                if ($full || count($w->refs) > 8) { break; }
                $arr = [];
                $n = 1 + $s->int(4);
                $allpairs = ($kind === 'map' || $kind === 'pairs') && $s->chance(1, 2);
                for ($i = 0; $i < $n; $i++) {
                    $rid = $w->id++;
                    $w->refs[$rid] = $g->val();
                    $k = $s->chance(1, 2) ? $i : "k$i";
                    if ($allpairs) {
                        $arr[$i] = [0, 0];
                        if ($s->chance(1, 3)) { $arr[$i][0] = &$w->refs[$rid]; $arr[$i][1] = $g->val(); } else { $arr[$i][0] = $g->key(); $arr[$i][1] = &$w->refs[$rid]; }
                        continue;
                    }
                    $arr[$k] = &$w->refs[$rid];
                }
                $how = $s->int(4);
                if ($allpairs) {
                    $d = "fromPairs over references";
                    $x = $s->chance(1, 3) ? $cls::__set_state($arr) : ($s->chance(1, 2) || $cls === Teds\CachedIterable::class ? $cls::fromPairs($arr) : $cls::fromPairs((function () use (&$arr) { foreach ($arr as $k => $v) { yield $k => $v; } })()));
                    $add($x);
                } elseif ($how === 0 && $kind !== 'map' && $kind !== 'pairs') {
                    $d = '__set_state of references';
                    $list = [];
                    foreach ($arr as $k => $_) { $list[] = &$arr[$k]; }
                    $x = $cls::__set_state($list);
                    unset($list);
                    $add($x);
                } elseif ($how === 1) {
                    $d = 'new from a generator of references';
                    $x = new $cls((function &() use (&$arr) { foreach ($arr as $k => &$v) { yield $k => $v; } })());
                    if ($x instanceof Teds\CachedIterable) { count($x); }
                    $add($x);
                } else {
                    $d = 'new from an array of references';
                    $x = new $cls($arr);
                    if ($x instanceof Teds\CachedIterable) { count($x); }
                    $add($x);
                }
                if (!$allpairs && count($w->arrs) < 4 && $s->chance(1, 2)) { $w->arrs[$w->id++] = array_map(fn($e) => $e, $arr); }
                unset($x, $arr, $e);
                break;
            case 'mutate':
                if ($imm) { break; }
                $touch = "c$cid";
                $d = $g->mutate($o);
                foreach ($w->its as $i => $it) { if ($it[3] === $cid) { unset($w->its[$i]); } }
                break;
            case 'clone':
                if ($full || $cls === Teds\CachedIterable::class) { break; }
                $i = $add(clone $o);
                if (deep_canon(coll_pairs($w->colls[$i])) !== $before["c$cid"]) { $c->fail("$cls: a clone of " . show(coll_pairs($o)) . ' holds ' . show(coll_pairs($w->colls[$i]))); }
                $d = "clone $cid as $i";
                break;
            case 'view':
                if (count($w->arrs) >= 4) { break; }
                [$d, $a] = array_view($s, $o);
                $w->arrs[$w->id++] = $a;
                unset($a);
                break;
            case 'vandal':
                $aid = array_keys($w->arrs)[$s->int(count($w->arrs))];
                $touch = "a$aid";
                $d = "array $aid: " . array_vandalize($s, $w->arrs[$aid], $g);
                break;
            case 'fromarr':
                if ($full) { break; }
                $aid = array_keys($w->arrs)[$s->int(count($w->arrs))];
                $d = "new from array $aid";
                $r = attempt(fn() => new $cls($w->arrs[$aid]));
                if ($r[0] === 'ok') { if ($r[1] instanceof Teds\CachedIterable) { count($r[1]); } $add($r[1]); }
                unset($r);
                break;
            case 'fromcoll':
                if ($full || $kind === 'heap') { break; }
                $d = "new from collection $cid";
                $x = new $cls($o);
                if ($x instanceof Teds\CachedIterable) { count($x); }
                $add($x);
                unset($x);
                break;
            case 'setref':
                $rid = array_keys($w->refs)[$s->int(count($w->refs))];
                $touch = "r$rid";
                $d = "assign variable $rid";
                if ($free && is_array($w->refs[$rid]) && $s->chance(1, 2)) { $w->refs[$rid]['more'] = ($w->refs[$rid]['more'] ?? 0) . 'x'; } else { $w->refs[$rid] = $s->chance(1, 4) ? 'changed' : $g->val(); }
                break;
            case 'indirect':
                // writes below an element have no effect on the collection, or throw
                $n = count($o);
                $k = $kind === 'map' ? ($n ? $o->keys()[$s->int($n)] : 0) : $s->int($n + 1);
                $mode = $s->int(5);
                $d = "indirect write $mode at " . show($k);
                if ($kind !== 'seq' && $kind !== 'map') { break; }
                attempt(function () use ($o, $k, $mode) {
                    switch ($mode) {
                        case 0: $o[$k][] = 'in'; break;
                        case 1: $o[$k]['x'] = 'in'; break;
                        case 2: $r = &$o[$k]; $r = 'in'; break;
                        case 3: $o[$k][0] = 'Q'; break;
                        default: foreach ($o as $kk => $v) { if (is_array($v)) { $v['loop'] = 1; } else { $v = 'loop'; } } [$a, &$b] = $o; $b = 'list'; break;
                    }
                });
                $c->takeWarnings();
                break;
            case 'compound':
                $n = count($o);
                if (($kind !== 'seq' && $kind !== 'map') || !$n) { break; }
                $touch = "c$cid";
                $k = $kind === 'map' ? $o->keys()[$s->int($n)] : $s->int($n);
                attempt(function () use ($o, $k, $s) { if ($s->int(2)) { $o[$k] .= 'x'; } else { $o[$k] ??= 5; } });
                $c->takeWarnings();
                foreach ($w->its as $i => $it) { if ($it[3] === $cid) { unset($w->its[$i]); } }
                if ($imm) { $touch = ''; }
                break;
            case 'roundtrip':
                if ($full) { break; }
                $add(unserialize(serialize($o)));
                break;
            case 'iter':
                if ($kind === 'heap') { break; }
                if (count($w->its) < 3) {
                    $it = $o->getIterator();
                    $w->its[$w->id++] = [$it, coll_pairs($o), 0, $cid];
                    $it->valid();
                    unset($it);
                }
                $k = array_keys($w->its)[$s->int(count($w->its))];
                [$it, $pairs, $pos] = $w->its[$k];
                if ($pos >= count($pairs)) {
                    if ($it->valid()) { $c->fail("$cls: an iterator yields more than the entries " . show($pairs)); }
                    unset($w->its[$k]);
                } else {
                    if (!$it->valid() || !same($it->current(), $pairs[$pos][1]) || !same($it->key(), $pairs[$pos][0])) { $c->fail("$cls: an iterator gives " . ($it->valid() ? show([$it->key(), $it->current()]) : 'nothing') . ' as entry ' . $pos . ' of ' . show($pairs)); }
                    $it->next();
                    $w->its[$k][2]++;
                }
                unset($it, $pairs);
                break;
            case 'callback':
                if (!method_exists($o, 'map')) {
                    if ($kind === 'heap') { break; }
                    $d = 'function with a callback taking a reference';
                    attempt(fn() => Teds\any($o, function (&$x) { $x = 'cb'; return false; }));
                    attempt(fn() => Teds\fold($o, function (&$a, &$x) { $x = 'cb'; $a = 'acc'; return $a; }, 1));
                } else {
                    $m = $s->pick(['map', 'filter']);
                    $d = "$m with a callback taking a reference";
                    $r = attempt(fn() => $o->$m(function (&$x) { $x = is_array($x) ? [...$x, 'cb'] : 'cb'; return $x; }));
                    if ($r[0] === 'ok' && !$full && get_class($r[1]) === $cls) { $add($r[1]); }
                    unset($r);
                }
                $c->takeWarnings();
                break;
            case 'drop':
                unset($w->colls[$cid], $before["c$cid"]);
                foreach ($w->its as $i => $it) { if ($it[3] === $cid && $s->chance(1, 2)) { unset($w->its[$i]); } }
                break;
            case 'element':
                // an array element taken out
                foreach (coll_pairs($o) as [$k, $v]) {
                    foreach ([$k, $v] as $x) { if (is_array($x) && count($w->arrs) < 4) { $w->arrs[$w->id++] = $x; break 2; } }
                }
                unset($k, $v, $x);
                break;
            case 'dump':
                var_export($o, true);
                ob_start();
                var_dump($o);
                ob_end_clean();
                break;
        }
        unset($o, $it);
        $c->takeWarnings();
        $c->say($d . ($touch ? " (changes $touch)" : ''));
        $after = $w->image();
        foreach ($before as $name => $x) {
            if ($name === $touch) { continue; }
            if ($after[$name] !== $x) {
                $what = match ($name[0]) { 'c' => 'collection ' . show(coll_pairs($w->colls[(int)substr($name, 1)])), 'a' => 'array ' . show($w->arrs[(int)substr($name, 1)]), default => 'variable ' . show($w->refs[(int)substr($name, 1)]) };
                $c->fail("$cls: '" . ($c->verbose ? $d : $op) . "'" . ($touch ? " on $touch" : '') . " changed $name, now $what");
            }
        }
        if (deep_canon($pool) !== $poolImage) { $c->fail("$cls: '$d' changed a value used to build collections"); }
        if (count($w->colls) > 1 || $w->arrs || $w->refs) { $c->nt(); }
    }
    foreach ($w->its as [$it, $pairs, $pos]) {
        for (; $it->valid(); $pos++) {
            if ($pos >= count($pairs) || !same($it->current(), $pairs[$pos][1])) { $c->fail("$cls: at the end an iterator gives " . show($it->current()) . " as entry $pos of " . show($pairs)); }
            $it->next();
        }
        if ($pos !== count($pairs)) { $c->fail("$cls: at the end an iterator stops at $pos of " . show($pairs)); }
    }
    foreach ($w->colls as $o) { coll_check($c, $o, 'at the end'); }
}
