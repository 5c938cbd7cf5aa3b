<?php
// Usage: php gen.php CAMPAIGN SEED EVENTS OUTDIR TAG
require __DIR__ . '/pools.php';
foreach (glob(__DIR__ . '/camp_*.php') as $f) require $f;
[, $campaign, $seed, $budget, $dir, $tag] = $argv;
mt_srand((int)$seed * 1000003 + crc32($campaign));
T::open($dir, $tag);
$fn = "camp_$campaign";
if ((int)$budget >= 4000 && isset(HUGE[$campaign]) && chance(50)) { T::reset(); huge($campaign); }
while (T::$ne < (int)$budget) { T::reset(); T::$large = chance(4) ? one([33, 40, 64, 65, 100, 127, 128, 129, 140, 200, 256, 257, 300, 520]) : 0; $fn(); }
T::reset();
file_put_contents("$dir/ops$tag.json", json_encode(T::$opcount));
T::close();
