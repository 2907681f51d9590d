# psitag.pl tags FILES | text HEX FILES | flavor HEX FILES: what the tag files give, in hexadecimal
use strict;
use warnings;
use PsiTag;
use NewMake;
binmode(STDOUT);
sub hx { return "x" . unpack("H*", $_[0]); }
my $what = shift @ARGV;
my $res = "";
if ($what eq "tags") {
	my %tags;
	PsiTag::main(\%tags, $_) for (@ARGV);
	foreach my $k (sort keys %tags) {
		$res .= hx($k) . " " . hx($tags{$k}->{"content"}) . "\n";
	}
} elsif ($what eq "text") {
	my $t = pack("H*", substr(shift @ARGV, 1));
	my %tags;
	PsiTag::main(\%tags, $_) for (@ARGV);
	$res = hx(PsiTag::unWrap(\%tags, $t)) . "\n";
} elsif ($what eq "conf") {
	my ($b, $o, $e) = map { $_ eq "-" ? undef : pack("H*", substr($_, 1)) } @ARGV;
	delete $ENV{"PSITAG_CONFIG_USER"};
	$ENV{"PSITAG_CONFIG_USER"} = $e if (defined($e));
	open(my $keep, ">&", \*STDOUT) or die;
	open(STDOUT, ">", "/dev/null") or die;
	my @l = NewMake::configFilesList($b, $o);
	open(STDOUT, ">&", $keep) or die;
	$res = join("", map { (defined($_) ? hx($_) : "none") . "\n" } @l);
} else {
	my $f = pack("H*", substr(shift @ARGV, 1));
	$f = NewMake::noFlavor() if ($f eq "");
	$res = hx(NewMake::getConfigContent(\@ARGV, $f)) . "\n";
}
print $res . "end\n";
