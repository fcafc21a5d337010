<?php
// Corrupt and hostile serialized data.

/** Keeps whatever its serialized form refers to, before the surrounding objects are complete. */
class Stash {
    public static array $got = [];
    public static ?Closure $act = null;
    public function __serialize(): array { return []; }
    public function __unserialize(array $a): void {
        foreach ($a as $x) { self::$got[] = $x; if (self::$act) { (self::$act)($x); } }
    }
}

/** A random value in serialize() format. $obj: whether r:1 / R:n may be used. */
function hostile_value(Src $s, Pool $p, int &$slots, bool $refs, int $d = 0): string {
    $k = $s->int($d > 1 ? 4 : 9);
    $slots++;
    switch ($k) {
        case 5:
            $n = $s->int(3);
            $r = "a:$n:{";
            for ($i = 0; $i < $n; $i++) { $r .= "i:$i;" . hostile_value($s, $p, $slots, false, $d + 1); }
            return $r . '}';
        case 6: if ($refs && $d === 0) { $slots--; return 'R:' . $s->range(1, max(1, $slots)) . ';'; } return 'N;';
        case 7: if ($refs) { return 'r:1;'; } return 'b:1;';
        case 8: return 'O:5:"Stash":1:{i:0;' . ($refs ? 'r:1;' : 'i:1;') . '}';
        default:
            $v = $p->any();
            if (is_object($v) || is_resource($v)) { $v = 4; }
            $slots += is_array($v) ? count($v, COUNT_RECURSIVE) : 0;
            return serialize($v);
    }
}
/** O:..:"class":n:{...} with arbitrary members. */
function hostile_object(Src $s, Pool $p, string $cls, bool $mayRef = true): string {
    $slots = 1;
    $refs = $mayRef && $s->chance(1, 2);
    $n = $s->size(12);
    $body = '';
    $pairish = $s->chance(1, 3);
    $mode = $s->int(6);
    for ($i = 0; $i < $n; $i++) {
        $s->mark();
        $body .= match (true) {
            $mode === 0 => 's:' . strlen("k$i") . ":\"k$i\";",
            $mode === 1 && $s->chance(1, 4) => 's:1:"x";',
            $mode === 2 => 'i:' . gen_int($s) . ';',
            $mode === 3 => 'i:' . ($n - $i) . ';',
            default => "i:$i;",
        };
        if ($pairish && $s->chance(5, 6)) {
            $slots++;
            $m = $s->chance(1, 8) ? $s->int(4) : 2;
            $body .= "a:$m:{";
            for ($j = 0; $j < $m; $j++) { $body .= ($s->chance(1, 16) ? 's:1:"y";' : "i:$j;") . hostile_value($s, $p, $slots, $refs, 1); }
            $body .= '}';
        } else {
            $body .= hostile_value($s, $p, $slots, $refs);
        }
    }
    // keys repeated in the data make the array shorter than announced: that is part of the hostility
    return 'O:' . strlen($cls) . ":\"$cls\":$n:{" . $body . '}';
}
/** Byte-level damage. */
function damage(Src $s, string $t): string {
    for ($k = 1 + $s->int(3); $k > 0; $k--) {
        $n = strlen($t);
        if ($n === 0) { return chr($s->int(256)); }
        $i = $s->int($n);
        switch ($s->int(9)) {
            case 0: $t = substr($t, 0, $i); break;
            case 1: $t[$i] = chr($s->int(256)); break;
            case 2: $t[$i] = chr(ord($t[$i]) ^ (1 << $s->int(8))); break;
            case 3: $t = substr($t, 0, $i) . substr($t, $i + 1 + $s->int(4)); break;
            case 4: $t = substr($t, 0, $i) . $s->pick(["\0", "\x80", "\xff", '0', ';', '-', "\0\0\0\0", "\xff\xff\xff\xff"]) . substr($t, $i); break;
            case 5: $t = substr($t, 0, $i) . substr($t, $i, 1 + $s->int(8)) . substr($t, $i); break;
            case 6: $t[$i] = $s->pick(["\0", "\x01", "\x7f", "\x80", "\xff", '9', '0', '"', '{', '}', ':']); break;
            case 7: $j = $s->int($n); $x = $t[$i]; $t[$i] = $t[$j]; $t[$j] = $x; break;
            default: $t .= chr($s->int(256)); break;
        }
    }
    return $t;
}
/** Re-frames damaged payload bytes so that the surrounding serialize() syntax stays valid. */
function hostile_string_object(string $cls, string $payload): string {
    return 'O:' . strlen($cls) . ":\"$cls\":1:{i:0;s:" . strlen($payload) . ":\"$payload\";}";
}
function collections_in($v, array &$out, int $d = 0): void {
    if ($d > 6) { return; }
    if (is_array($v)) {
        foreach ($v as $x) { collections_in($x, $out, $d + 1); }
    } elseif (is_object($v) && in_array(get_class($v), ALL_CLASSES, true)) {
        foreach ($out as $x) { if ($x === $v) { return; } }
        $out[] = $v;
        collections_in(coll_pairs($v), $out, $d + 1);
    }
}
