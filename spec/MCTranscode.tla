----------------------------- MODULE MCTranscode -----------------------------
EXTENDS TranscodeModel
MCPairs == {<<"UTF-8", "UTF-16">>, <<"UTF-16", "UTF-8">>, <<"UTF-8", "UTF-8">>, <<"UTF-32", "UTF-8">>, <<"UTF-16", "UTF-32">>, <<"UTF-8", "ISO-8859-15">>,
            <<"ISO-8859-3", "UTF-8">>, <<"UTF-32", "windows-1252">>, <<"UTF-16", "ASCII">>, <<"windows-1252", "ISO-8859-15">>, <<"ASCII", "UTF-16">>}
=============================================================================
