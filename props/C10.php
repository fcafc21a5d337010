<?php
// Any input to a decoder is refused cleanly or gives a collection that satisfies its class's invariants and keeps working.
function c10_poke(Src $s, Ctx $c, $x): void {
    // read and use a collection that may not be initialised yet
    $cls = get_class($x);
    foreach ($s->pick([['count', 'values'], ['iterate'], ['clone'], ['change'], ['serialize'], ['clear'], ['export'], ['search'], ['reconstruct']]) as $op) {
        $c->doing = "$op on an unfinished object";
        try {
            switch ($op) {
                case 'count': count($x); $x->isEmpty(); break;
                case 'values': $x->values(); $x->toArray(); break;
                case 'iterate': $i = 0; foreach ($x as $k => $v) { if (++$i > 50) { break; } } break;
                case 'clone': $y = clone $x; count($y); break;
                case 'change': if (!coll_immutable($cls)) { (new CollGen($s, $c, $cls, 'is', 3))->mutate($x); } break;
                case 'serialize': $x->__serialize(); break;
                case 'clear': if (method_exists($x, 'clear')) { $x->clear(); } break;
                case 'export': var_export($x, true); break;
                case 'search': $x->contains(1); break;
                case 'reconstruct': $x->__construct([]); break;
            }
        } catch (Fail | Discard $e) {
            throw $e;
        } catch (Throwable $t) {
        }
    }
}
return function (Src $s, Ctx $c): void {
    $cls = ALL_CLASSES[$s->int(count(ALL_CLASSES))];
    $c->label($cls);
    $g = new CollGen($s, $c, $cls, $s->pick(['i', 's', 'f', 'n', 'nifsa', 'nif']));
    $own = $cls === Teds\BitVector::class || $cls === Teds\IntVector::class || $cls === Teds\ImmutableSortedStringSet::class;
    $binary = in_array($cls, [Teds\BitVector::class, Teds\IntVector::class, Teds\LowMemoryVector::class, Teds\SortedIntVectorSet::class, Teds\ImmutableSortedIntSet::class, Teds\ImmutableSortedStringSet::class], true);
    $modes = ['bytes', 'structure', 'structure', 'set_state', 'call'];
    if ($own) { array_push($modes, 'own', 'own'); }
    if ($binary) { array_push($modes, 'payload', 'payload', 'payload'); }
    if ($cls === Teds\ImmutableSortedStringSet::class) { array_push($modes, 'crafted', 'crafted', 'crafted'); }
    $mode = $s->pick($modes);
    $c->label($mode);
    Stash::$got = [];
    Stash::$act = null;
    if ($s->chance(1, 2)) {
        Stash::$act = function ($x) use ($s, $c) {
            if (is_object($x) && in_array(get_class($x), ALL_CLASSES, true)) { $c->label('used before complete'); c10_poke($s, $c, $x); }
        };
    }
    $quiet = function (Closure $f) use ($c) {
        $r = attempt($f);
        $c->takeWarnings();             // notices about bad offsets and the like are part of a clean refusal
        return $r;
    };
    try {
        switch ($mode) {
            case 'bytes':
                [$o, $d] = $g->make();
                if ($s->chance(1, 3)) { $o = new Teds\Vector([$o, 1, $o]); }
                $t = damage($s, serialize($o));
                $c->say('unserialize ' . show($t) . ' hex ' . bin2hex($t));
                if (strpos($t, 'R:') !== false) { return; }        // could build cyclic arrays, which PHP refuses to compare
                $c->doing = 'unserialize';
                $r = $quiet(fn() => unserialize($t));
                break;
            case 'structure':
                $t = hostile_object($s, $s->chance(1, 2) ? new Pool($s, 'niifsa') : $g->vals, $cls);
                if ($s->chance(1, 6)) { $t = 'a:2:{i:0;' . $t . 'i:1;i:5;}'; }
                $c->say('unserialize ' . $t);
                $c->doing = 'unserialize';
                $r = $quiet(fn() => unserialize($t));
                break;
            case 'payload':
                [$o, $d] = $g->make();
                $c->say("valid: $d");
                $data = $o->__serialize();
                $i = $data ? $s->pick(array_keys($data)) : 0;
                $data[$i] = is_string($data[$i] ?? null) ? damage($s, $data[$i]) : ($s->int(2) ? chr($s->int(256)) : gen_int($s));
                $t = 'O:' . strlen($cls) . ":\"$cls\"" . substr(serialize($data), 1);
                $c->say('unserialize hex ' . bin2hex($t));
                $c->doing = 'unserialize';
                $r = $quiet(fn() => unserialize($t));
                break;
            case 'crafted':
                // number of strings, then each with its length in any of the encodings, honest or not, cut off anywhere
                $n = $s->int(5);
                $t = pack('V', $s->int(6) ? $n : $s->pick([0, $n + 1, $n + 2, 0xffffffff, 0x80000000, 0x40000000]));
                $str = '';
                for ($i = 0; $i < $n; $i++) {
                    $str = $s->int(5) ? str_repeat('abcdefgh'[$i], $s->pick([1, 2, 3, 8, 15, 252, 253, 254, 255, 300, 65534, 65535, 65536])) . 'x' : gen_str($s);
                    $len = strlen($str);
                    if ($s->int(7) === 6) { $len = $s->pick([$len + 1, $len + 2, $len - 1, $len + 8, 0, 65535, 0xffffffff, 0x7fffffff]); }
                    $t .= match ($s->int(8)) { 0 => "\xfe" . pack('V', $len), 1 => "\xfd" . pack('v', $len), 2 => "\xff" . pack('P', $len), default => $len < 253 ? chr(max(0, $len)) : ($len < 65535 ? "\xfd" . pack('v', $len) : "\xfe" . pack('V', $len)) };
                    $t .= $str;
                }
                $cut = $s->int(3);
                if ($cut === 1) { $t = substr($t, 0, max(0, strlen($t) - strlen($str) - $s->int(7))); }
                if ($cut === 2 && $s->int(2)) { $t = substr($t, 0, $s->int(strlen($t) + 1)); }
                if ($s->int(12) === 11) { $t .= chr($s->int(256)); }
                $c->say('crafted ' . strlen($t) . ' bytes, hex ' . substr(bin2hex($t), 0, 4000));
                $c->doing = 'unserialize';
                $r = $s->int(2) ? $quiet(fn() => $cls::unserialize($t)) : $quiet(fn() => unserialize(hostile_string_object($cls, $t)));
                break;
            case 'own':
                [$o, $d] = $g->make();
                $fn = $cls === Teds\BitVector::class && $s->chance(1, 4) ? 'fromBinaryString' : 'unserialize';
                $t = $s->chance(1, 4) ? implode('', array_map(fn() => chr($s->int(256)), array_fill(0, $s->int(20), 0))) : damage($s, $o->serialize());
                if ($s->int(6) === 5) { $t = literal($t); }
                $c->say("$fn hex " . bin2hex($t));
                $c->doing = $fn;
                $r = $quiet(fn() => $cls::$fn($t));
                break;
            case 'set_state':
                $slots = 1;
                $t = hostile_object($s, $g->vals, 'Teds\\Vector', false);
                // (array references could build cyclic arrays, which PHP refuses to compare)
                $arr = $quiet(fn() => unserialize(preg_replace('/^O:11:"Teds.Vector":/s', 'a:', $t)));
                if ($arr[0] !== 'ok' || !is_array($arr[1])) { return; }
                $c->say('__set_state(' . show($arr[1]) . ')');
                $c->doing = '__set_state';
                $r = $quiet(fn() => $cls::__set_state($arr[1]));
                break;
            case 'call':
                // a second __unserialize on a live object
                [$o, $d] = $g->make();
                $before = deep_canon(coll_pairs($o));
                $data = $s->chance(1, 2) ? (clone_or_self($o))->__serialize() : [[1, 2], [3, 4]];
                $c->say("$d; __unserialize(" . show($data) . ')');
                $c->doing = '__unserialize';
                $r = $quiet(fn() => $o->__unserialize($data));
                if ($r[0] !== 'ok' && deep_canon(coll_pairs($o)) !== $before) { $c->fail('a refused __unserialize() changed the collection to ' . show(coll_pairs($o))); }
                $r = ['ok', $o];
                break;
        }
        $c->ops++;
        $list = [];
        if ($r[0] === 'ok') { collections_in($r[1], $list); }
        foreach (Stash::$got as $x) { collections_in($x, $list); }
        if ($r[0] !== 'ok') { $c->label('refused with an exception'); } elseif ($r[1] === false) { $c->label('refused with false'); } else { $c->label('accepted'); }
        $c->nt();
        foreach (array_slice($list, 0, 6) as $x) {
            $c->doing = 'validate the result';
            $x1 = get_class($x);
            coll_check($c, $x, 'after decoding');
            $u = $quiet(fn() => unserialize(serialize($x)));
            if ($u[0] !== 'ok' || !is_object($u[1]) || get_class($u[1]) !== $x1 || count($u[1]) !== count($x)) { $c->fail('the decoded collection does not survive serialize(): ' . show_outcome($u)); }
            if (!coll_immutable($x1)) {
                $g2 = $x1 === $cls ? $g : new CollGen($s, $c, $x1, 'is', 4);
                for ($i = 0; $i < 4; $i++) { $c->say('then ' . $g2->mutate($x)); }
                coll_check($c, $x, 'decoded and then changed');
            }
        }
        // break cycles
        foreach ($list as $x) { if (!coll_immutable(get_class($x))) { $x->clear(); } }
    } finally {
        Stash::$got = [];
        Stash::$act = null;
    }
};
