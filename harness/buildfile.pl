# buildfile.pl SPEC OUT: has the scripts write the build file that SPEC asks for
use strict;
use warnings;
use PsiTag;
use NewMake;
use Make;
my ($spec, $out) = @ARGV;
my (%a, @drivers);
my $kind = 0;
open(my $in, "<", $spec) or die;
while (<$in>) {
	chomp;
	my @t = split(/\t/, $_, -1);
	if ($t[0] eq "kind") {
		$kind = $t[1];
	} elsif ($t[0] eq "set") {
		$a{$t[1]} = $t[2];
	} elsif ($t[0] eq "drv") {
		push @drivers, $t[1];
	} else {
		my %h = (name => $t[1]);
		$h{"aux"} = $t[2] if ($t[2] ne "-");
		$h{"dotos"} = $t[3] if ($t[3] ne "-");
		$h{"libs"} = $t[4] if ($t[4] ne "-");
		push @drivers, \%h;
	}
}
close($in);
open(my $fh, ">", $out) or die;
if ($kind == 0) {
	$a{"configFiles"} = ["cfg.psiTag"];
	$a{"flavor"} = "main";
	NewMake::main($fh, \%a, \@drivers);
} elsif ($kind == 1) {
	Make::newMake($fh, \@drivers, \%a);
} else {
	Make::make($fh, \@drivers, $a{"code"}, "Linux", 0, $a{"libs"}, $a{"cxx"}, $a{"cppflags"}, $a{"strip"}, $a{"additional"}, $a{"additional2"}, $a{"additional3"});
}
close($fh) or die;
