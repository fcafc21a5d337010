<?php
// Minimal property-based-testing core: every random choice is an integer drawn from a Src,
// so that any case can be replayed and shrunk as a plain list of integers.

final class Fail extends Exception {}
/** Thrown to discard a case (counted, never a failure). */
final class Discard extends Exception {}

final class Src {
    /** @var int[] choices made, as actually used */
    public array $log = [];
    /** @var int[] indexes into $log where an operation starts */
    public array $marks = [];
    private ?array $replay = null;
    private int $n = 0;
    private $rnd = null;
    private $live = null;

    public static function random(string $seed): Src {
        $s = new Src();
        $s->rnd = new Random\Randomizer(new Random\Engine\Xoshiro256StarStar(hash('sha256', $seed, true)));
        return $s;
    }
    public static function replay(array $choices): Src {
        $s = new Src();
        $s->replay = $choices;
        return $s;
    }
    /** Also append every draw to this stream at once (survives a crash). */
    public function trace($fh): void { $this->live = $fh; }

    /** Uniform in 0..$n-1. 0 is the simplest choice. */
    public function int(int $n): int {
        if ($n <= 1) { return 0; }
        if ($this->replay !== null) {
            $v = $this->replay[$this->n] ?? 0;
            if ($v >= $n) { $v %= $n; }
        } else {
            $v = $this->rnd->getInt(0, $n - 1);
        }
        $this->n++;
        $this->log[] = $v;
        if ($this->live) { fwrite($this->live, $v . "\n"); }
        return $v;
    }
    public function range(int $lo, int $hi): int { return $lo + $this->int($hi - $lo + 1); }
    /** True with probability $num/$den; false is simplest. */
    public function chance(int $num, int $den): bool { return $this->int($den) >= $den - $num; }
    public function pick(array $list) { return $list[$this->int(count($list))]; }
    /** Index with the given integer weights. */
    public function weighted(array $w): int {
        $x = $this->int(array_sum($w));
        foreach ($w as $i => $k) {
            if ($x < $k) { return $i; }
            $x -= $k;
        }
        return 0;
    }
    public function pickw(array $map) {
        $k = array_keys($map);
        return $k[$this->weighted(array_values($map))];
    }
    /** Marks the start of an operation, for shrinking. */
    public function mark(): void {
        $this->marks[] = $this->n;
        if ($this->live) { fwrite($this->live, "m\n"); }
    }
    /** "Another operation?" with an expected count of about $avg; stops when a replay is exhausted. */
    public function more(int $avg): bool {
        $this->mark();
        return $this->int($avg + 1) !== 0;
    }
    /** Size-like number: mostly small, sometimes up to $max. */
    public function size(int $max): int {
        switch ($this->int(6)) {
            case 0: case 1: return $this->int(min($max, 3) + 1);
            case 2: case 3: return $this->int(min($max, 8) + 1);
            case 4: return $this->int(min($max, 24) + 1);
            default: return $this->int($max + 1);
        }
    }
}

final class Ctx {
    public bool $verbose = false;
    public bool $nontrivial = false;
    /** @var string[] */
    public array $lines = [];
    public array $labels = [];
    public array $warnings = [];
    public int $ops = 0;
    public string $variant = '';
    public $live = null;
    public string $doing = '';
    public function say(string $s): void {
        if ($this->verbose) {
            $this->lines[] = $s;
            if ($this->live) { fwrite($this->live, $s . "\n"); }
        }
    }
    public function label(string $s, int $n = 1): void { $this->labels[$s] = ($this->labels[$s] ?? 0) + $n; }
    public function nt(): void { $this->nontrivial = true; }
    public function fail(string $msg): never { throw new Fail($msg); }
    public function takeWarnings(): array { $w = $this->warnings; $this->warnings = []; return $w; }
}

/** @var ?Ctx */
$GLOBALS['CTX'] = null;
set_error_handler(function (int $no, string $msg, string $file = '', int $line = 0) {
    if (error_reporting() === 0) { return true; }
    $c = $GLOBALS['CTX'];
    if ($c) { $c->warnings[] = $msg; }
    return true;
});

/** Runs one case. Returns null or a failure message. */
function run_case(Closure $prop, Src $s, Ctx $c): ?string {
    $GLOBALS['CTX'] = $c;
    try {
        $prop($s, $c);
        if ($c->warnings) { return 'unexpected PHP diagnostic: ' . $c->warnings[0]; }
        if (!vprobe_immutables_intact()) { return 'a constant (immutable) array was written to or released'; }
        return null;
    } catch (Discard $d) {
        $c->label('discarded');
        $c->nontrivial = false;
        return null;
    } catch (Fail $f) {
        return $f->getMessage() . ($c->verbose ? '  [' . basename($f->getTrace()[0]['file'] ?? '') . ':' . ($f->getTrace()[0]['line'] ?? '') . ']' : '');
    } catch (Throwable $t) {
        return 'unexpected ' . get_class($t) . ': ' . $t->getMessage() . ' at ' . basename($t->getFile()) . ':' . $t->getLine();
    } finally {
        $GLOBALS['CTX'] = null;
    }
}
