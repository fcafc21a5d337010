<?php
// Every serialized form gives back an equal collection of the same class, which keeps behaving the same.
final class Stated {            // an object that survives var_export/eval
    public $v = 0;
    public static function __set_state(array $a): self { $o = new self; $o->v = $a['v']; return $o; }
}
/** Applies the same random changes to both and compares. */
function c09_same_future(Src $s, Ctx $c, CollGen $g, $a, $b, string $what): void {
    $seed = [];
    for ($i = 0; $i < 24; $i++) { $seed[] = $s->int(64); }
    $live = $g->s;
    $liveV = $g->vals->s;
    foreach ([1, 2, 3] as $round) {
        $ds = [];
        foreach ([$a, $b] as $o) {
            $r = Src::replay(array_slice($seed, 8 * ($round - 1), 8));
            $g->s = $g->vals->s = $g->keys->s = $r;
            $ds[] = $g->mutate($o);
        }
        $g->s = $live;
        $g->vals->s = $g->keys->s = $liveV;
        if (deep_canon(coll_pairs($a)) !== deep_canon(coll_pairs($b))) {
            $c->fail("after the same change {$ds[0]} the original holds " . show(coll_pairs($a)) . " and its $what copy holds " . show(coll_pairs($b)));
        }
    }
}
return function (Src $s, Ctx $c): void {
    CollGen::$big = 60;
    $cls = ALL_CLASSES[$s->int(count(ALL_CLASSES))];
    $c->label($cls);
    if ($cls === Teds\ImmutableSortedStringSet::class && $s->int(120) === 119) {
        // sizes that need each byte of the stored length
        $l = $s->pick([65534, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 24) + 65793, (3 << 24) + 7]);
        $v = ['a', str_repeat('b', $l), 'c'];
        $o = new $cls($v);
        $c->say("a string of $l bytes");
        $c->doing = 'huge string';
        $c->nt();
        $c->ops++;
        foreach (['unserialize(serialize())' => unserialize(serialize($o)), 'own unserialize' => $cls::unserialize($o->serialize())] as $how => $x) {
            if (count($x) !== 3 || $x->values() !== $v || !$x->contains($v[1])) { $c->fail("$how of a set with a string of $l bytes does not hold the same strings"); }
        }
        $c->label('huge string');
        return;
    }
    $free = $s->pick(['i', 's', 'f', 'n', 'nifsa', 'nnnnf', 'iiiiiiif', 'nif']);
    $g = new CollGen($s, $c, $cls, $free);
    // reproducible objects: fresh objects would differ between the two futures
    [$o, $d] = $g->make($s->chance(1, 10) ? 150 : 14);
    $c->say("\$o: $d");
    $c->ops++;
    if (count($o) > 1) { $c->nt(); }
    $before = deep_canon(coll_pairs($o));
    $forms = ['serialize', 'serialize', 'var_export', 'set_state', 'nested', 'shared'];
    // LowMemoryVector deliberately hides its contents from var_export() and var_dump()
    if ($cls === Teds\LowMemoryVector::class) { $forms = array_values(array_diff($forms, ['var_export'])); }
    if (in_array($cls, FREE_MUTABLE, true) && coll_kind($cls) !== 'heap') { $forms[] = 'self'; }
    if ($cls === Teds\BitVector::class || $cls === Teds\IntVector::class || $cls === Teds\ImmutableSortedStringSet::class) { array_push($forms, 'own', 'own'); }
    if ($cls === Teds\BitVector::class) { array_push($forms, 'binary', 'binary'); }
    $form = $s->pick($forms);
    $c->label($form);
    $c->doing = $form;
    $c->say($form);
    switch ($form) {
        case 'serialize':
            $t = serialize($o);
            if (serialize($o) !== $t) { $c->fail('serializing twice gives different strings'); }
            $r = unserialize($t);
            if (serialize($r) !== $t && coll_kind($cls) !== 'heap') { $c->fail('the copy serializes differently: ' . show(serialize($r)) . ' instead of ' . show($t)); }
            break;
        case 'var_export':
            $t = var_export($o, true);
            $r = eval("return $t;");
            break;
        case 'set_state':
            $arr = in_array($cls, PAIR_CLASSES, true) || in_array($cls, ALL_MAPS, true) ? $o->toPairs() : $o->values();
            $r = $cls::__set_state($arr);
            break;
        case 'nested':
            // inside an array inside another collection
            $w = new Teds\Vector([[1, $o], 'x', $o]);
            $u = unserialize(serialize($w));
            $r = $u[2];
            if ($u[0][1] !== $r) { $c->fail('one collection stored twice became two'); }
            break;
        case 'shared':
            // objects inside keep their identity
            $x = new Stated;
            $x->v = [1];
            if (in_array($cls, FREE_CLASSES, true) && !coll_immutable($cls)) {
                $o2 = clone $o;
                switch (coll_kind($cls)) {
                    case 'seq': $o2->push($x, $x); break;
                    case 'pairs': $o2->push('q', $x); $o2->push($x, 1); break;
                    case 'map': $o2['q'] = $x; $o2[$x] = 1; break;
                    default: $o2->add($x); break;
                }
                [$u, $y] = unserialize(serialize([$o2, $x]));
                if (get_class($u) !== $cls || !$y instanceof Stated || $y->v !== [1]) { $c->fail('wrong classes after unserialize'); }
                $found = 0;
                foreach (coll_pairs($u) as $p) { $found += ($p[1] === $y) ? 1 : (($p[0] === $y) ? 1 : 0); }
                if ($found < 1) { $c->fail('the object inside lost its identity'); }
                if (coll_kind($cls) === 'map' && (!$u->containsKey($y) || $u[$y] !== 1)) { $c->fail('object key not found after unserialize'); }
                if (coll_kind($cls) === 'set' && !$u->contains($y)) { $c->fail('object member not found after unserialize'); }
                if (count($u) !== count($o2)) { $c->fail('count changed from ' . count($o2) . ' to ' . count($u)); }
                if ($cls === Teds\LowMemoryVector::class) { return; }
                $r = eval('return ' . var_export($o2, true) . ';');
                if (count($r) !== count($o2) || get_class($r) !== $cls) { $c->fail('count or class changed by var_export'); }
                return;
            }
            $r = unserialize(serialize([$o, $x]))[0];
            break;
        case 'self':
            // contains itself
            $o2 = clone $o;
            switch (coll_kind($cls)) {
                case 'seq': $o2->push($o2); break;
                case 'pairs': $o2->push('q', $o2); break;
                case 'map': $o2['q'] = $o2; break;
                default: $o2->add($o2); break;
            }
            $n = count($o2);
            $u = unserialize(serialize($o2));
            if (get_class($u) !== $cls || count($u) !== $n) { $c->fail('class or count changed'); }
            $found = false;
            foreach (coll_pairs($u) as $p) { $found = $found || $p[1] === $u; }
            if (!$found) { $c->fail('a collection that contains itself does not any more'); }
            foreach ([$o2, $u] as $x) { $x->clear(); }
            return;
        case 'own':
            $t = $o->serialize();
            $r = $cls::unserialize($t);
            if ($r->serialize() !== $t) { $c->fail('own form not stable'); }
            break;
        case 'binary':
            // toBinaryString() covers whole bytes only
            $t = attempt(fn() => $o->toBinaryString());
            if ($t[0] !== 'ok') { if (count($o) % 8 === 0) { $c->fail('toBinaryString: ' . show_outcome($t)); } return; }
            $r = Teds\BitVector::fromBinaryString($t[1]);
            if (strlen($t[1]) * 8 !== count($r)) { $c->fail('fromBinaryString gives ' . count($r) . ' bits of ' . strlen($t[1]) . ' bytes'); }
            if (array_slice($r->toArray(), 0, count($o)) !== $o->toArray() || in_array(true, array_slice($r->toArray(), count($o)), true)) { $c->fail('bits changed'); }
            if (count($o) % 8) { $r->setSize(count($o)); }
            break;
    }
    if (get_class($r) !== $cls) { $c->fail("$form turned a $cls into a " . get_class($r)); }
    if ($r === $o) { $c->fail('got the same object back'); }
    if (count($r) !== count($o)) { $c->fail("count changed from " . count($o) . ' to ' . count($r)); }
    $after = deep_canon(coll_pairs($o));
    if ($after !== $before) { $c->fail("$form changed the original to " . show(coll_pairs($o))); }
    $got = deep_canon(coll_pairs($r));
    if ($got !== $before && coll_kind($cls) === 'heap') {
        $l = [];
        foreach ([clone $o, clone $r] as $h) { $x = []; while (!$h->isEmpty()) { $x[] = $h->extract(); } $l[] = implode("\n", array_map('canon', $x)); }
        if ($l[0] === $l[1]) { return; }
    }
    if ($got !== $before) { $c->fail("$form turned " . show(coll_pairs($o)) . ' into ' . show(coll_pairs($r))); }
    // the copy answers lookups
    foreach (array_slice(coll_pairs($o), 0, 12) as [$k, $v]) {
        $ok = match (coll_kind($cls)) { 'map' => $r->containsKey($k), 'set' => $r->contains($v), 'sorted' => $r->contains($v), default => true };
        if (!$ok) { $c->fail("the $form copy holds " . show($k) . ' but does not find it'); }
    }
    if (!coll_immutable($cls)) { c09_same_future($s, $c, $g, $o, $r, $form); }
};
