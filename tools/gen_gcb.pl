#!/usr/bin/perl
# Generates spec/GcbTable.tla from Perl's copy of the Unicode character database (an oracle independent of strf):
# Grapheme_Cluster_Break and Extended_Pictographic as of Unicode 13 (what strf implements), i.e. characters added
# by Unicode 14 and 15 are still unassigned (those reserved for emoji were Extended_Pictographic already), and U+1734 is Extend (it became SpacingMark in Unicode 14).
# Usage: perl gen_gcb.pl > spec/GcbTable.tla
use strict; use warnings; no warnings 'utf8';
sub cls {
    my $cp = shift; my $c = chr $cp;
    return "CN" if $cp >= 0xD800 && $cp <= 0xDFFF;
    return "XP" if $c =~ /\p{ExtPict}/;
    return "XX" if $c =~ /\p{Age=14.0}|\p{Age=15.0}/;
    return "EX" if $cp == 0x1734;
    return "CR" if $c =~ /\p{GCB=CR}/;   return "LF" if $c =~ /\p{GCB=LF}/;
    return "CN" if $c =~ /\p{GCB=Control}/; return "EX" if $c =~ /\p{GCB=Extend}/;
    return "ZWJ" if $c =~ /\p{GCB=ZWJ}/; return "RI" if $c =~ /\p{GCB=Regional_Indicator}/;
    return "PP" if $c =~ /\p{GCB=Prepend}/; return "SM" if $c =~ /\p{GCB=SpacingMark}/;
    return "L" if $c =~ /\p{GCB=L}/; return "V" if $c =~ /\p{GCB=V}/; return "T" if $c =~ /\p{GCB=T}/;
    return "HS" if $c =~ /\p{GCB=LV}|\p{GCB=LVT}/;   # told apart by the arithmetic of Hangul syllables
    return "XX";
}
my (@lo, @cl);
for my $cp (0 .. 0x10FFFF) { my $k = cls($cp); if (!@cl || $cl[-1] ne $k) { push @lo, $cp; push @cl, $k; } }
print "------------------------------- MODULE GcbTable -------------------------------\n";
print "(* Generated by tools/gen_gcb.pl: Grapheme_Cluster_Break (Unicode 13) of the code points from\n   GcbLo[i] up to GcbLo[i+1]-1 is GcbCls[i].  \"HS\": Hangul syllable (LV or LVT).             *)\n";
sub rows { my ($name, @v) = @_; print "$name ==\n  << "; my $l = 0;
  for my $i (0 .. $#v) { my $t = $v[$i] . ($i < $#v ? "," : ""); if ($l + length($t) > 110) { print "\n     "; $l = 0; } print $t; $l += length $t; } print " >>\n"; }
rows("GcbLo", @lo); rows("GcbCls", map { "\"$_\"" } @cl);
print "=============================================================================\n";
