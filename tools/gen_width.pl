#!/usr/bin/perl
# Generates refs/width_data.go from the Unicode database shipped with Perl (must be 15.0.0).
use strict; use warnings; use Unicode::UCD; use charnames ();
no warnings 'utf8';
die "need Unicode 15.0.0" unless Unicode::UCD::UnicodeVersion() eq '15.0.0';
sub emit { my ($name,$pred)=@_;
  my @r; my $start;
  for my $c (0..0x10FFFF) { my $in=$pred->($c);
    if ($in && !defined $start) {$start=$c}
    if (!$in && defined $start) { push @r,[$start,$c-1]; undef $start } }
  push @r,[$start,0x10FFFF] if defined $start;
  print "var $name = [][2]rune{\n"; printf "\t{0x%04X, 0x%04X},\n",@$_ for @r; print "}\n\n"; }
print "// Code generated by tools/gen_width.pl from Perl's Unicode 15.0.0 database. DO NOT EDIT.\n\npackage refs\n\n";
emit("eaWide", sub { chr($_[0]) =~ /[\p{Ea=W}\p{Ea=F}]/ });
emit("eaAmbiguous", sub { chr($_[0]) =~ /\p{Ea=A}/ });
emit("eaNarrow", sub { chr($_[0]) =~ /\p{Ea=Na}/ });
emit("combiningNames", sub { my $n = charnames::viacode($_[0]); defined $n && $n =~ /COMBINING/ });
emit("pictographic", sub { chr($_[0]) =~ /\p{ExtPict}/ });
