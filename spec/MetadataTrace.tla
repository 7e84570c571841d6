---------------------------- MODULE MetadataTrace ----------------------------
EXTENDS Metadata, TraceBase
Clauses(r) == LET acc == r.o = "accepted" x == r.x IN
  CASE r.k = "provider" ->
        << <<"proper provider metadata is accepted", ProviderOK(x) => acc>>, <<"https issuer", acc => IssuerScheme(x)>>,
           <<"issuer without query and fragment", acc => IssuerPlain(x)>>, <<"RS256 supported", acc => Rs256(x)>>,
           <<"openid scope advertised", acc => ScopesOK(x)>>, <<"legal scope characters", acc => ScopeCharsOK(x)>>,
           <<"token endpoint for code types", acc => TokenEndpoint(x)>> >>
    [] r.k = "client" ->
        << <<"a proper registration request is accepted", ClientOK(x) => acc>>, <<"https login URI", acc => LoginOK(x)>>,
           <<"token endpoint algorithm", acc => AuthAlgOK(x)>>, <<"encryption method with its algorithm", acc => PairsOK(x)>>,
           <<"encryption methods afterwards", acc => r.enc = <<EncAfter(x.ro), EncAfter(x.idt), EncAfter(x.ui)>> >> >>
    [] OTHER -> << <<"birthdate", acc = BirthOK(x)>> >>
=============================================================================
