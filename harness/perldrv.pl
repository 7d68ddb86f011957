# Scenario driver for the Perl binding (queries only); see driver.c for the commands.
use strict;
use warnings;
use Location;

my ($script, $outp) = @ARGV;
open(my $out, ">:raw", $outp) or die;
my %D;

sub usage { print STDERR "DRIVER-USAGE: $_[0]\n"; $out->flush(); require POSIX; POSIX::_exit(97); }
sub broken { print STDERR "DRIVER-BROKEN: $_[0]\n"; $out->flush(); require POSIX; POSIX::_exit(96); }

sub unpct {
	my $t = shift;
	return undef if $t eq "-";
	return $t unless $t =~ s/^s://;
	$t =~ s/%([0-9A-Fa-f]{2})/chr(hex($1))/ge;
	return $t;
}
sub js {
	my $s = shift;
	return '""' unless defined $s;
	$s =~ s/([\x00-\x1f"\\\x7f-\xff])/sprintf("\\u%04x", ord($1))/ge;
	return "\"$s\"";
}
sub u32 {
	my $v = shift;
	return "[-1,-1]" unless $v =~ /^\d+$/ && $v < 4294967296;
	return sprintf("[%d,%d]", $v >> 16, $v & 0xffff);
}
sub db { my $d = $D{$_[0]}; broken("empty slot") unless defined $d; return $d; }
sub call {
	my ($f) = @_;
	my $v = eval { $f->() };
	return ("err", undef) if $@ ne "";
	return ("ok", $v);
}
my %FLAGS = (1 => "LOC_NETWORK_FLAG_ANONYMOUS_PROXY", 2 => "LOC_NETWORK_FLAG_SATELLITE_PROVIDER",
	4 => "LOC_NETWORK_FLAG_ANYCAST", 8 => "LOC_NETWORK_FLAG_DROP");

sub command {
	my @t = @_;
	my $c = $t[0];
	if ($c eq "d.open") {
		my ($r, $d) = call(sub { Location::init(unpct($t[2])) });
		$D{$t[1]} = $d if $r eq "ok";
		return "\"r\":\"$r\"";
	} elsif ($c eq "d.lookup") {
		my $d = db($t[1]); my $s = unpct($t[2]);
		my ($r, $cc) = call(sub { Location::lookup_country_code($d, $s) });
		my ($r2, $asn) = call(sub { Location::lookup_asn($d, $s) });
		my $fl = 0;
		my $bad = $r ne $r2;
		foreach my $b (1, 2, 4, 8) {
			my ($r3, $v) = call(sub { Location::lookup_network_has_flag($d, $s, $FLAGS{$b}) });
			$bad = 1 if $r3 ne $r;
			$fl |= $b if $v;
		}
		$r = "odd" if $bad;
		return "\"r\":\"$r\",\"net\":{\"none\":1}" if !defined($cc) && !defined($asn) && !$fl;
		$r = "odd" if defined($asn) && $asn eq "0";
		$r = "odd" unless defined($cc);
		return "\"r\":\"$r\",\"net\":{\"cc\":" . js($cc) . ",\"asn\":" . u32(defined $asn ? $asn : 0) . ",\"fl\":$fl}";
	} elsif ($c eq "d.as") {
		my $d = db($t[1]);
		my ($r, $nm) = call(sub { Location::get_as_name($d, $t[2]) });
		return "\"r\":\"none\",\"as\":{\"none\":1}" if $r eq "ok" && !defined $nm;
		return "\"r\":\"$r\",\"as\":{\"n\":" . u32($t[2]) . ",\"name\":" . js($nm) . "}";
	} elsif ($c eq "d.country") {
		my $d = db($t[1]); my $s = unpct($t[2]);
		my ($r, $nm) = call(sub { Location::get_country_name($d, $s) });
		my ($r2, $ct) = call(sub { Location::get_continent_code($d, $s) });
		return "\"r\":\"odd\",\"country\":{\"none\":1}" if $r ne $r2;
		return "\"r\":\"$r\",\"country\":{\"none\":1}" if !defined $nm && !defined $ct;
		return "\"r\":\"$r\",\"country\":{\"code\":" . js($s) . ",\"cont\":" . js($ct) . ",\"name\":" . js($nm) . "}";
	} elsif ($c eq "d.meta") {
		my $d = db($t[1]);
		return "\"vendor\":" . js(Location::get_vendor($d)) . ",\"description\":" . js(Location::get_description($d)) .
			",\"license\":" . js(Location::get_license($d));
	} elsif ($c eq "d.verify") {
		my $d = db($t[1]);
		my ($r, $v) = call(sub { Location::verify($d, unpct($t[2])) });
		$r = "err" if $r eq "ok" && !$v;
		return "\"r\":\"$r\"";
	} elsif ($c eq "d.codes") {
		my $d = db($t[1]);
		my @q = eval { Location::database_countries($d) };
		my $r = $@ eq "" ? "ok" : "err";
		return "\"r\":\"$r\",\"codes\":[" . join(",", map { js($_) } @q) . "]";
	} elsif ($c eq "unref") {
		delete $D{$t[2]};
		return "\"r\":\"ok\"";
	} elsif ($c eq "x.release") {
		%D = ();
		our $DB = undef;
		my ($p, $n, $k) = (unpct($t[1]), 0, 0);
		open(my $m, "<", "/proc/self/maps") or die;
		while (<$m>) { $n++ if index($_, $p) >= 0; }
		close($m);
		foreach (glob("/proc/self/fd/*")) { my $l = readlink($_); $k++ if defined $l && $l eq $p; }
		return "\"maps\":$n,\"fds\":$k";
	} elsif ($c eq "x.call") {
		my $src = unpct($t[1]);
		our $DB = $D{"0"};
		my $v = eval "no strict; no warnings; my \$d = \$main::DB; $src; 1";
		my $e = $@;
		return "\"r\":\"" . ($v ? "ok" : $e =~ /syntax error/ ? usage($e) : "err") . "\"";
	}
	usage(join(" ", @t));
}

open(my $in, "<:raw", $script) or die;
my $cur = 0;
while (my $line = <$in>) {
	chomp $line;
	my @t = split(/ /, $line);
	if ($t[0] eq "scenario") {
		print $out "\@end\n" if $cur;
		$cur = 1;
		alarm(60);
		%D = ();
		print $out "\@scenario $t[1]\n";
		$out->flush();
	} else {
		print $out "{" . command(@t) . "}\n";
		$out->flush() if $ENV{"DRIVER_FLUSH"};
	}
}
print $out "\@end\n" if $cur;
print $out "\@done\n";
close($out);
