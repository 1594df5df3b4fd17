# Dumps Unicode properties known to the installed Perl (Unicode 15.0): "lo hi value" per line.
use Unicode::UCD qw(prop_invmap);
my $dir = shift;
for my $p (@ARGV) {
  my ($list,$map,$fmt,$def)=prop_invmap($p);
  unless(defined $list){print STDERR "no $p\n";next}
  open(my $f,">","$dir/$p.txt") or die;
  for my $i (0..$#$list){ my $hi= $i<$#$list ? $list->[$i+1]-1 : 0x10FFFF; printf $f "%X %X %s\n",$list->[$i],$hi,$map->[$i]; }
  close $f;
}
