<?php
foreach (['gen', 'order', 'sources', 'seq', 'maps', 'coll', 'validate', 'hostile', 'bomb', 'bad', 'indep', 'pairs', 'large'] as $f) { require __DIR__ . "/$f.php"; }
