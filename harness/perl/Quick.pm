# loaded into the scripts under test: waits pass faster, and scripts that run side by side pick different ports
package Quick;
use Fcntl ':flock';
BEGIN {
  *CORE::GLOBAL::sleep = sub { select(undef, undef, undef, $_[0] / 4); $_[0] };
  *CORE::GLOBAL::rand = sub (;$) {
    my $x = @_ && $_[0] ? $_[0] : 1;
    return CORE::rand($x) unless $x >= 100 && $ENV{QUICK_PORTS};
    open(my $h, '+>>', $ENV{QUICK_PORTS}) or return CORE::rand($x);
    flock($h, LOCK_EX); seek($h, 0, 0);
    my $n = int(<$h> || 0);
    while (1) {
      $n = ($n + 1) % $x;
      my $p = sprintf(":%04X ", 50300 + $n);
      open(my $t, '<', '/proc/net/tcp') or last;
      last unless grep { /$p/ } <$t>;
    }
    truncate($h, 0); print $h $n; close($h);
    return $n;
  };
}
1;
