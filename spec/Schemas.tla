------------------------------ MODULE Schemas ------------------------------
(* The message types: for every type its parameters (name, kind, required, type of a *)
(* nested message), its default values and its enumerated parameters.               *)
(* Kinds: str int bool  list (of strings)  splist (space separated)  dict, json      *)
(* (JSON objects)  msg, msglist (nested messages)  idt (a JWT string or a message)    *)
(* time (ISO 8601 string or a number).                                              *)
EXTENDS Trees

message_Message == [
  params |-> <<>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_ASConfigurationResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"issuer", "str", TRUE, "">>,
    <<"authorization_endpoint", "str", FALSE, "">>,
    <<"token_endpoint", "str", FALSE, "">>,
    <<"jwks_uri", "str", FALSE, "">>,
    <<"registration_endpoint", "str", FALSE, "">>,
    <<"scopes_supported", "list", FALSE, "">>,
    <<"response_types_supported", "list", TRUE, "">>,
    <<"response_modes_supported", "list", FALSE, "">>,
    <<"grant_types_supported", "list", TRUE, "">>,
    <<"token_endpoint_auth_methods_supported", "list", FALSE, "">>,
    <<"token_endpoint_auth_signing_alg_values_supported", "list", FALSE, "">>,
    <<"service_documentation", "str", FALSE, "">>,
    <<"ui_locales_supported", "list", FALSE, "">>,
    <<"op_policy_uri", "str", FALSE, "">>,
    <<"op_tos_uri", "str", FALSE, "">>,
    <<"revocation_endpoint", "str", FALSE, "">>,
    <<"introspection_endpoint", "str", FALSE, "">>>>,
  defaults |-> <<<<"version", S("3.0")>>>>,
  allowed |-> <<>>]

oauth2_AccessTokenRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"code", "str", TRUE, "">>,
    <<"redirect_uri", "str", TRUE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"client_secret", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<<<"grant_type", S("authorization_code")>>>>,
  allowed |-> <<>>]

oauth2_AccessTokenResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"access_token", "str", TRUE, "">>,
    <<"token_type", "str", TRUE, "">>,
    <<"expires_in", "int", FALSE, "">>,
    <<"refresh_token", "str", FALSE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_AuthorizationErrorResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"error", <<"invalid_request", "unauthorized_client", "access_denied", "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable">>>>>>]

oauth2_AuthorizationRequest == [
  params |-> <<<<"response_type", "splist", TRUE, "">>,
    <<"client_id", "str", TRUE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"redirect_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_AuthorizationResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"code", "str", TRUE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"iss", "str", FALSE, "">>,
    <<"client_id", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_CCAccessTokenRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"scope", "splist", FALSE, "">>>>,
  defaults |-> <<<<"grant_type", S("client_credentials")>>>>,
  allowed |-> <<<<"grant_type", <<"client_credentials">>>>>>]

oauth2_JWTSecuredAuthorizationRequest == [
  params |-> <<<<"response_type", "splist", TRUE, "">>,
    <<"client_id", "str", TRUE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"redirect_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"request", "str", FALSE, "">>,
    <<"request_uri", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_NoneResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_PushedAuthorizationRequest == [
  params |-> <<<<"response_type", "splist", TRUE, "">>,
    <<"client_id", "str", TRUE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"redirect_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"request", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_ROPCAccessTokenRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"username", "str", FALSE, "">>,
    <<"password", "str", FALSE, "">>,
    <<"scope", "splist", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_RefreshAccessTokenRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"refresh_token", "str", TRUE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"client_secret", "str", FALSE, "">>>>,
  defaults |-> <<<<"grant_type", S("refresh_token")>>>>,
  allowed |-> <<<<"grant_type", <<"refresh_token">>>>>>]

oauth2_ResourceRequest == [
  params |-> <<<<"access_token", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_ResponseMessage == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_SecurityEventToken == [
  params |-> <<<<"iss", "str", TRUE, "">>,
    <<"iat", "int", TRUE, "">>,
    <<"jti", "str", TRUE, "">>,
    <<"aud", "list", FALSE, "">>,
    <<"sub", "str", FALSE, "">>,
    <<"exp", "int", FALSE, "">>,
    <<"events", "json", FALSE, "">>,
    <<"txt", "str", FALSE, "">>,
    <<"toe", "int", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_TokenErrorResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"error", <<"invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope">>>>>>]

oauth2_TokenExchangeRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"resource", "list", FALSE, "">>,
    <<"audience", "list", FALSE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"requested_token_type", "str", FALSE, "">>,
    <<"subject_token", "str", TRUE, "">>,
    <<"subject_token_type", "str", TRUE, "">>,
    <<"actor_token", "str", FALSE, "">>,
    <<"actor_token_type", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_TokenExchangeResponse == [
  params |-> <<<<"access_token", "str", TRUE, "">>,
    <<"issued_token_type", "str", TRUE, "">>,
    <<"token_type", "str", TRUE, "">>,
    <<"expires_in", "int", FALSE, "">>,
    <<"refresh_token", "str", FALSE, "">>,
    <<"scope", "splist", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_TokenIntrospectionRequest == [
  params |-> <<<<"token", "str", TRUE, "">>,
    <<"token_type_hint", "str", FALSE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"client_assertion_type", "str", FALSE, "">>,
    <<"client_assertion", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oauth2_TokenIntrospectionResponse == [
  params |-> <<<<"active", "bool", TRUE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"username", "str", FALSE, "">>,
    <<"token_type", "str", FALSE, "">>,
    <<"exp", "int", FALSE, "">>,
    <<"iat", "int", FALSE, "">>,
    <<"nbf", "int", FALSE, "">>,
    <<"sub", "str", FALSE, "">>,
    <<"aud", "list", FALSE, "">>,
    <<"iss", "str", FALSE, "">>,
    <<"jti", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

device_AccessTokenRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"code", "str", TRUE, "">>,
    <<"redirect_uri", "str", TRUE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"client_secret", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"client_assertion_type", "str", FALSE, "">>,
    <<"client_assertion", "str", FALSE, "">>>>,
  defaults |-> <<<<"grant_type", S("authorization_code")>>>>,
  allowed |-> <<<<"client_assertion_type", <<"urn:ietf:params:oauth:client-assertion-type:jwt-bearer">>>>>>]

device_AuthorizationRequest == [
  params |-> <<<<"client_id", "str", TRUE, "">>,
    <<"scope", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

device_AuthorizationResponse == [
  params |-> <<<<"device_code", "str", TRUE, "">>,
    <<"user_code", "str", TRUE, "">>,
    <<"verification_uri", "str", TRUE, "">>,
    <<"verification_uri_complete", "str", FALSE, "">>,
    <<"expires_in", "int", TRUE, "">>,
    <<"interval", "int", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_AccessTokenRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"code", "str", TRUE, "">>,
    <<"redirect_uri", "str", TRUE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"client_secret", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"client_assertion_type", "str", FALSE, "">>,
    <<"client_assertion", "str", FALSE, "">>>>,
  defaults |-> <<<<"grant_type", S("authorization_code")>>>>,
  allowed |-> <<<<"client_assertion_type", <<"urn:ietf:params:oauth:client-assertion-type:jwt-bearer">>>>>>]

oidc_AccessTokenResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"access_token", "str", TRUE, "">>,
    <<"token_type", "str", TRUE, "">>,
    <<"expires_in", "int", FALSE, "">>,
    <<"refresh_token", "str", FALSE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"id_token", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_AddressClaim == [
  params |-> <<<<"formatted", "str", FALSE, "">>,
    <<"street_address", "str", FALSE, "">>,
    <<"locality", "str", FALSE, "">>,
    <<"region", "str", FALSE, "">>,
    <<"postal_code", "str", FALSE, "">>,
    <<"country", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_AuthnToken == [
  params |-> <<<<"iss", "str", TRUE, "">>,
    <<"sub", "str", TRUE, "">>,
    <<"aud", "list", TRUE, "">>,
    <<"jti", "str", TRUE, "">>,
    <<"exp", "int", TRUE, "">>,
    <<"iat", "int", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_AuthorizationErrorResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"error", <<"invalid_request", "unauthorized_client", "access_denied", "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable", "interaction_required", "login_required", "session_selection_required", "consent_required", "invalid_request_uri", "invalid_request_object", "registration_not_supported", "request_not_supported", "request_uri_not_supported">>>>>>]

oidc_AuthorizationRequest == [
  params |-> <<<<"response_type", "splist", TRUE, "">>,
    <<"client_id", "str", TRUE, "">>,
    <<"scope", "splist", TRUE, "">>,
    <<"redirect_uri", "str", TRUE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"nonce", "str", FALSE, "">>,
    <<"display", "str", FALSE, "">>,
    <<"prompt", "splist", FALSE, "">>,
    <<"max_age", "int", FALSE, "">>,
    <<"ui_locales", "splist", FALSE, "">>,
    <<"claims_locales", "splist", FALSE, "">>,
    <<"id_token_hint", "str", FALSE, "">>,
    <<"login_hint", "str", FALSE, "">>,
    <<"acr_values", "splist", FALSE, "">>,
    <<"claims", "msg", FALSE, "oidc.ClaimsRequest">>,
    <<"registration", "json", FALSE, "">>,
    <<"request", "str", FALSE, "">>,
    <<"request_uri", "str", FALSE, "">>,
    <<"response_mode", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"display", <<"page", "popup", "touch", "wap">>>>,
    <<"prompt", <<"none", "login", "consent", "select_account">>>>>>]

oidc_AuthorizationResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"code", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"iss", "str", FALSE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"access_token", "str", FALSE, "">>,
    <<"token_type", "str", FALSE, "">>,
    <<"expires_in", "int", FALSE, "">>,
    <<"refresh_token", "str", FALSE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"id_token", "idt", FALSE, "">>,
    <<"session_state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_Claims == [
  params |-> <<>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_ClaimsRequest == [
  params |-> <<<<"userinfo", "msg", FALSE, "oidc.Claims">>,
    <<"id_token", "msg", FALSE, "oidc.Claims">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_ClientRegistrationErrorResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"error", <<"invalid_redirect_uri", "invalid_client_metadata", "invalid_configuration_parameter">>>>>>]

oidc_DiscoveryRequest == [
  params |-> <<<<"resource", "str", TRUE, "">>,
    <<"rel", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_IdToken == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"sub", "str", TRUE, "">>,
    <<"name", "str", FALSE, "">>,
    <<"given_name", "str", FALSE, "">>,
    <<"family_name", "str", FALSE, "">>,
    <<"middle_name", "str", FALSE, "">>,
    <<"nickname", "str", FALSE, "">>,
    <<"preferred_username", "str", FALSE, "">>,
    <<"profile", "str", FALSE, "">>,
    <<"picture", "str", FALSE, "">>,
    <<"website", "str", FALSE, "">>,
    <<"email", "str", FALSE, "">>,
    <<"email_verified", "bool", FALSE, "">>,
    <<"gender", "str", FALSE, "">>,
    <<"birthdate", "str", FALSE, "">>,
    <<"zoneinfo", "str", FALSE, "">>,
    <<"locale", "str", FALSE, "">>,
    <<"phone_number", "str", FALSE, "">>,
    <<"phone_number_verified", "bool", FALSE, "">>,
    <<"address", "msg", FALSE, "oidc.AddressClaim">>,
    <<"updated_at", "int", FALSE, "">>,
    <<"_claim_names", "msg", FALSE, "message.Message">>,
    <<"_claim_sources", "msg", FALSE, "message.Message">>,
    <<"iss", "str", TRUE, "">>,
    <<"aud", "list", TRUE, "">>,
    <<"exp", "int", TRUE, "">>,
    <<"iat", "int", TRUE, "">>,
    <<"auth_time", "int", FALSE, "">>,
    <<"nonce", "str", FALSE, "">>,
    <<"at_hash", "str", FALSE, "">>,
    <<"c_hash", "str", FALSE, "">>,
    <<"acr", "str", FALSE, "">>,
    <<"amr", "list", FALSE, "">>,
    <<"azp", "str", FALSE, "">>,
    <<"sub_jwk", "str", FALSE, "">>,
    <<"sid", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_JRD == [
  params |-> <<<<"subject", "str", FALSE, "">>,
    <<"aliases", "list", FALSE, "">>,
    <<"properties", "dict", FALSE, "">>,
    <<"links", "msglist", TRUE, "oidc.Link">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_JsonWebToken == [
  params |-> <<<<"iss", "str", FALSE, "">>,
    <<"sub", "str", FALSE, "">>,
    <<"aud", "list", FALSE, "">>,
    <<"exp", "int", FALSE, "">>,
    <<"nbf", "int", FALSE, "">>,
    <<"iat", "int", FALSE, "">>,
    <<"jti", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_Link == [
  params |-> <<<<"rel", "str", TRUE, "">>,
    <<"type", "str", FALSE, "">>,
    <<"href", "str", FALSE, "">>,
    <<"titles", "dict", FALSE, "">>,
    <<"properties", "dict", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_MessageWithIdToken == [
  params |-> <<<<"id_token", "idt", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_OpenIDRequest == [
  params |-> <<<<"response_type", "splist", TRUE, "">>,
    <<"client_id", "str", TRUE, "">>,
    <<"scope", "splist", TRUE, "">>,
    <<"redirect_uri", "str", TRUE, "">>,
    <<"state", "str", FALSE, "">>,
    <<"nonce", "str", FALSE, "">>,
    <<"display", "str", FALSE, "">>,
    <<"prompt", "splist", FALSE, "">>,
    <<"max_age", "int", FALSE, "">>,
    <<"ui_locales", "splist", FALSE, "">>,
    <<"claims_locales", "splist", FALSE, "">>,
    <<"id_token_hint", "str", FALSE, "">>,
    <<"login_hint", "str", FALSE, "">>,
    <<"acr_values", "splist", FALSE, "">>,
    <<"claims", "msg", FALSE, "oidc.ClaimsRequest">>,
    <<"registration", "json", FALSE, "">>,
    <<"request", "str", FALSE, "">>,
    <<"request_uri", "str", FALSE, "">>,
    <<"response_mode", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"display", <<"page", "popup", "touch", "wap">>>>,
    <<"prompt", <<"none", "login", "consent", "select_account">>>>>>]

oidc_OpenIDSchema == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"sub", "str", TRUE, "">>,
    <<"name", "str", FALSE, "">>,
    <<"given_name", "str", FALSE, "">>,
    <<"family_name", "str", FALSE, "">>,
    <<"middle_name", "str", FALSE, "">>,
    <<"nickname", "str", FALSE, "">>,
    <<"preferred_username", "str", FALSE, "">>,
    <<"profile", "str", FALSE, "">>,
    <<"picture", "str", FALSE, "">>,
    <<"website", "str", FALSE, "">>,
    <<"email", "str", FALSE, "">>,
    <<"email_verified", "bool", FALSE, "">>,
    <<"gender", "str", FALSE, "">>,
    <<"birthdate", "str", FALSE, "">>,
    <<"zoneinfo", "str", FALSE, "">>,
    <<"locale", "str", FALSE, "">>,
    <<"phone_number", "str", FALSE, "">>,
    <<"phone_number_verified", "bool", FALSE, "">>,
    <<"address", "msg", FALSE, "oidc.AddressClaim">>,
    <<"updated_at", "int", FALSE, "">>,
    <<"_claim_names", "msg", FALSE, "message.Message">>,
    <<"_claim_sources", "msg", FALSE, "message.Message">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_ProviderConfigurationResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"issuer", "str", TRUE, "">>,
    <<"authorization_endpoint", "str", TRUE, "">>,
    <<"token_endpoint", "str", FALSE, "">>,
    <<"userinfo_endpoint", "str", FALSE, "">>,
    <<"jwks_uri", "str", TRUE, "">>,
    <<"registration_endpoint", "str", FALSE, "">>,
    <<"scopes_supported", "list", FALSE, "">>,
    <<"response_types_supported", "list", TRUE, "">>,
    <<"response_modes_supported", "list", FALSE, "">>,
    <<"grant_types_supported", "list", FALSE, "">>,
    <<"acr_values_supported", "list", FALSE, "">>,
    <<"subject_types_supported", "list", TRUE, "">>,
    <<"id_token_signing_alg_values_supported", "list", TRUE, "">>,
    <<"id_token_encryption_alg_values_supported", "list", FALSE, "">>,
    <<"id_token_encryption_enc_values_supported", "list", FALSE, "">>,
    <<"userinfo_signing_alg_values_supported", "list", FALSE, "">>,
    <<"userinfo_encryption_alg_values_supported", "list", FALSE, "">>,
    <<"userinfo_encryption_enc_values_supported", "list", FALSE, "">>,
    <<"request_object_signing_alg_values_supported", "list", FALSE, "">>,
    <<"request_object_encryption_alg_values_supported", "list", FALSE, "">>,
    <<"request_object_encryption_enc_values_supported", "list", FALSE, "">>,
    <<"token_endpoint_auth_methods_supported", "list", FALSE, "">>,
    <<"token_endpoint_auth_signing_alg_values_supported", "list", FALSE, "">>,
    <<"display_values_supported", "list", FALSE, "">>,
    <<"claim_types_supported", "list", FALSE, "">>,
    <<"claims_supported", "list", FALSE, "">>,
    <<"service_documentation", "str", FALSE, "">>,
    <<"claims_locales_supported", "list", FALSE, "">>,
    <<"ui_locales_supported", "list", FALSE, "">>,
    <<"claims_parameter_supported", "bool", FALSE, "">>,
    <<"request_parameter_supported", "bool", FALSE, "">>,
    <<"request_uri_parameter_supported", "bool", FALSE, "">>,
    <<"require_request_uri_registration", "bool", FALSE, "">>,
    <<"op_policy_uri", "str", FALSE, "">>,
    <<"op_tos_uri", "str", FALSE, "">>,
    <<"check_session_iframe", "str", FALSE, "">>,
    <<"end_session_endpoint", "str", FALSE, "">>,
    <<"frontchannel_logout_supported", "bool", FALSE, "">>,
    <<"frontchannel_logout_session_supported", "bool", FALSE, "">>,
    <<"backchannel_logout_supported", "bool", FALSE, "">>,
    <<"backchannel_logout_session_supported", "bool", FALSE, "">>>>,
  defaults |-> <<<<"version", S("3.0")>>,
    <<"token_endpoint_auth_methods_supported", L(<<S("client_secret_basic")>>)>>,
    <<"claims_parameter_supported", B(FALSE)>>,
    <<"request_parameter_supported", B(FALSE)>>,
    <<"request_uri_parameter_supported", B(TRUE)>>,
    <<"require_request_uri_registration", B(TRUE)>>,
    <<"grant_types_supported", L(<<S("authorization_code"), S("implicit")>>)>>>>,
  allowed |-> <<>>]

oidc_RefreshAccessTokenRequest == [
  params |-> <<<<"grant_type", "str", TRUE, "">>,
    <<"refresh_token", "str", TRUE, "">>,
    <<"scope", "splist", FALSE, "">>,
    <<"client_id", "str", FALSE, "">>,
    <<"client_secret", "str", FALSE, "">>>>,
  defaults |-> <<<<"grant_type", S("refresh_token")>>>>,
  allowed |-> <<<<"grant_type", <<"refresh_token">>>>>>]

oidc_RegistrationRequest == [
  params |-> <<<<"redirect_uris", "list", TRUE, "">>,
    <<"response_types", "list", FALSE, "">>,
    <<"grant_types", "list", FALSE, "">>,
    <<"application_type", "str", FALSE, "">>,
    <<"contacts", "list", FALSE, "">>,
    <<"client_name", "str", FALSE, "">>,
    <<"logo_uri", "str", FALSE, "">>,
    <<"client_uri", "str", FALSE, "">>,
    <<"policy_uri", "str", FALSE, "">>,
    <<"tos_uri", "str", FALSE, "">>,
    <<"jwks", "dict", FALSE, "">>,
    <<"jwks_uri", "str", FALSE, "">>,
    <<"sector_identifier_uri", "str", FALSE, "">>,
    <<"subject_type", "str", FALSE, "">>,
    <<"id_token_signed_response_alg", "str", FALSE, "">>,
    <<"id_token_encrypted_response_alg", "str", FALSE, "">>,
    <<"id_token_encrypted_response_enc", "str", FALSE, "">>,
    <<"userinfo_signed_response_alg", "str", FALSE, "">>,
    <<"userinfo_encrypted_response_alg", "str", FALSE, "">>,
    <<"userinfo_encrypted_response_enc", "str", FALSE, "">>,
    <<"request_object_signing_alg", "str", FALSE, "">>,
    <<"request_object_encryption_alg", "str", FALSE, "">>,
    <<"request_object_encryption_enc", "str", FALSE, "">>,
    <<"token_endpoint_auth_method", "str", FALSE, "">>,
    <<"token_endpoint_auth_signing_alg", "str", FALSE, "">>,
    <<"default_max_age", "int", FALSE, "">>,
    <<"require_auth_time", "bool", FALSE, "">>,
    <<"default_acr_values", "list", FALSE, "">>,
    <<"initiate_login_uri", "str", FALSE, "">>,
    <<"request_uris", "list", FALSE, "">>,
    <<"post_logout_redirect_uris", "list", FALSE, "">>,
    <<"frontchannel_logout_uri", "str", FALSE, "">>,
    <<"frontchannel_logout_session_required", "bool", FALSE, "">>,
    <<"backchannel_logout_uri", "str", FALSE, "">>,
    <<"backchannel_logout_session_supported", "bool", FALSE, "">>,
    <<"federation_type", "list", FALSE, "">>,
    <<"organization_name", "str", FALSE, "">>>>,
  defaults |-> <<<<"application_type", S("web")>>,
    <<"response_types", L(<<S("code")>>)>>>>,
  allowed |-> <<<<"application_type", <<"native", "web">>>>,
    <<"subject_type", <<"public", "pairwise">>>>>>]

oidc_RegistrationResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"client_id", "str", TRUE, "">>,
    <<"client_secret", "str", FALSE, "">>,
    <<"registration_access_token", "str", FALSE, "">>,
    <<"registration_client_uri", "str", FALSE, "">>,
    <<"client_id_issued_at", "int", FALSE, "">>,
    <<"client_secret_expires_at", "int", FALSE, "">>,
    <<"redirect_uris", "list", TRUE, "">>,
    <<"response_types", "list", FALSE, "">>,
    <<"grant_types", "list", FALSE, "">>,
    <<"application_type", "str", FALSE, "">>,
    <<"contacts", "list", FALSE, "">>,
    <<"client_name", "str", FALSE, "">>,
    <<"logo_uri", "str", FALSE, "">>,
    <<"client_uri", "str", FALSE, "">>,
    <<"policy_uri", "str", FALSE, "">>,
    <<"tos_uri", "str", FALSE, "">>,
    <<"jwks", "dict", FALSE, "">>,
    <<"jwks_uri", "str", FALSE, "">>,
    <<"sector_identifier_uri", "str", FALSE, "">>,
    <<"subject_type", "str", FALSE, "">>,
    <<"id_token_signed_response_alg", "str", FALSE, "">>,
    <<"id_token_encrypted_response_alg", "str", FALSE, "">>,
    <<"id_token_encrypted_response_enc", "str", FALSE, "">>,
    <<"userinfo_signed_response_alg", "str", FALSE, "">>,
    <<"userinfo_encrypted_response_alg", "str", FALSE, "">>,
    <<"userinfo_encrypted_response_enc", "str", FALSE, "">>,
    <<"request_object_signing_alg", "str", FALSE, "">>,
    <<"request_object_encryption_alg", "str", FALSE, "">>,
    <<"request_object_encryption_enc", "str", FALSE, "">>,
    <<"token_endpoint_auth_method", "str", FALSE, "">>,
    <<"token_endpoint_auth_signing_alg", "str", FALSE, "">>,
    <<"default_max_age", "int", FALSE, "">>,
    <<"require_auth_time", "bool", FALSE, "">>,
    <<"default_acr_values", "list", FALSE, "">>,
    <<"initiate_login_uri", "str", FALSE, "">>,
    <<"request_uris", "list", FALSE, "">>,
    <<"post_logout_redirect_uris", "list", FALSE, "">>,
    <<"frontchannel_logout_uri", "str", FALSE, "">>,
    <<"frontchannel_logout_session_required", "bool", FALSE, "">>,
    <<"backchannel_logout_uri", "str", FALSE, "">>,
    <<"backchannel_logout_session_supported", "bool", FALSE, "">>,
    <<"federation_type", "list", FALSE, "">>,
    <<"organization_name", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_ResourceRequest == [
  params |-> <<<<"access_token", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_TokenErrorResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"error", <<"invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope">>>>>>]

oidc_UserInfoErrorResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<<<"error", <<"invalid_schema", "invalid_request", "invalid_token", "insufficient_scope">>>>>>]

oidc_UserInfoRequest == [
  params |-> <<<<"access_token", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

oidc_WebFingerRequest == [
  params |-> <<<<"resource", "str", TRUE, "">>,
    <<"rel", "str", TRUE, "">>>>,
  defaults |-> <<<<"rel", S("http://openid.net/specs/connect/1.0/issuer")>>>>,
  allowed |-> <<>>]

session_BackChannelLogoutRequest == [
  params |-> <<<<"logout_token", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

session_CheckIDRequest == [
  params |-> <<<<"access_token", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

session_CheckSessionRequest == [
  params |-> <<<<"id_token", "idt", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

session_EndSessionRequest == [
  params |-> <<<<"id_token_hint", "idt", FALSE, "">>,
    <<"post_logout_redirect_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

session_EndSessionResponse == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"state", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

session_LogoutToken == [
  params |-> <<<<"iss", "str", TRUE, "">>,
    <<"sub", "str", FALSE, "">>,
    <<"aud", "list", TRUE, "">>,
    <<"iat", "int", TRUE, "">>,
    <<"jti", "str", TRUE, "">>,
    <<"events", "json", TRUE, "">>,
    <<"sid", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

session_RefreshSessionRequest == [
  params |-> <<<<"id_token", "idt", TRUE, "">>,
    <<"redirect_url", "str", TRUE, "">>,
    <<"state", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

session_RefreshSessionResponse == [
  params |-> <<<<"id_token", "idt", TRUE, "">>,
    <<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"state", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_Document == [
  params |-> <<<<"type", "str", TRUE, "">>,
    <<"number", "str", TRUE, "">>,
    <<"issuer", "msg", TRUE, "ida.Issuer">>,
    <<"date_of_issuance", "time", TRUE, "">>,
    <<"date_of_expiry", "time", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_Evidence == [
  params |-> <<<<"type", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_IDAClaimsRequest == [
  params |-> <<<<"userinfo", "msg", FALSE, "oidc.Claims">>,
    <<"id_token", "msg", FALSE, "oidc.Claims">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_IdDocument == [
  params |-> <<<<"type", "str", FALSE, "">>,
    <<"method", "str", TRUE, "">>,
    <<"verifier", "msg", TRUE, "ida.Verifier">>,
    <<"time", "time", FALSE, "">>,
    <<"document", "msg", FALSE, "ida.Document">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_IdentityAssuranceClaims == [
  params |-> <<<<"error", "str", FALSE, "">>,
    <<"error_description", "str", FALSE, "">>,
    <<"error_uri", "str", FALSE, "">>,
    <<"sub", "str", TRUE, "">>,
    <<"name", "str", FALSE, "">>,
    <<"given_name", "str", FALSE, "">>,
    <<"family_name", "str", FALSE, "">>,
    <<"middle_name", "str", FALSE, "">>,
    <<"nickname", "str", FALSE, "">>,
    <<"preferred_username", "str", FALSE, "">>,
    <<"profile", "str", FALSE, "">>,
    <<"picture", "str", FALSE, "">>,
    <<"website", "str", FALSE, "">>,
    <<"email", "str", FALSE, "">>,
    <<"email_verified", "bool", FALSE, "">>,
    <<"gender", "str", FALSE, "">>,
    <<"birthdate", "str", FALSE, "">>,
    <<"zoneinfo", "str", FALSE, "">>,
    <<"locale", "str", FALSE, "">>,
    <<"phone_number", "str", FALSE, "">>,
    <<"phone_number_verified", "bool", FALSE, "">>,
    <<"address", "msg", FALSE, "oidc.AddressClaim">>,
    <<"updated_at", "int", FALSE, "">>,
    <<"_claim_names", "msg", FALSE, "message.Message">>,
    <<"_claim_sources", "msg", FALSE, "message.Message">>,
    <<"place_of_birth", "json", FALSE, "">>,
    <<"nationalities", "str", FALSE, "">>,
    <<"birth_family_name", "str", FALSE, "">>,
    <<"birth_given_name", "str", FALSE, "">>,
    <<"birth_middle_name", "str", FALSE, "">>,
    <<"salutation", "str", FALSE, "">>,
    <<"title", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_Issuer == [
  params |-> <<<<"name", "str", TRUE, "">>,
    <<"country", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_PlaceOfBirth == [
  params |-> <<<<"country", "str", TRUE, "">>,
    <<"region", "str", FALSE, "">>,
    <<"locality", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_Provider == [
  params |-> <<<<"formatted", "str", FALSE, "">>,
    <<"street_address", "str", FALSE, "">>,
    <<"locality", "str", FALSE, "">>,
    <<"region", "str", FALSE, "">>,
    <<"postal_code", "str", FALSE, "">>,
    <<"country", "str", FALSE, "">>,
    <<"name", "str", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_QES == [
  params |-> <<<<"type", "str", FALSE, "">>,
    <<"issuer", "str", TRUE, "">>,
    <<"serial_number", "str", TRUE, "">>,
    <<"created_at", "time", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_UtilityBill == [
  params |-> <<<<"type", "str", FALSE, "">>,
    <<"provider", "msg", TRUE, "ida.Provider">>,
    <<"date", "time", FALSE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_VerificationElement == [
  params |-> <<<<"trust_framework", "str", TRUE, "">>,
    <<"time", "time", FALSE, "">>,
    <<"verification_process", "str", FALSE, "">>,
    <<"evidence", "msglist", FALSE, "ida.Evidence">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_VerificationElementRequest == [
  params |-> <<<<"trust_framework", "str", TRUE, "">>,
    <<"time", "time", FALSE, "">>,
    <<"verification_process", "str", FALSE, "">>,
    <<"evidence", "msglist", FALSE, "ida.Evidence">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_VerifiedClaims == [
  params |-> <<<<"verification", "msg", FALSE, "ida.VerificationElement">>,
    <<"claims", "msg", FALSE, "message.Message">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_VerifiedClaimsRequest == [
  params |-> <<<<"verification", "msg", FALSE, "message.Message">>,
    <<"claims", "msg", FALSE, "message.Message">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

ida_Verifier == [
  params |-> <<<<"organization", "str", TRUE, "">>,
    <<"txn", "str", TRUE, "">>>>,
  defaults |-> <<>>,
  allowed |-> <<>>]

\* a type as a user of the library may define it (harness/own.py)
own_Own == [
  params |-> <<<<"s", "str", TRUE, "">>,
    <<"n", "int", TRUE, "">>,
    <<"on", "int", FALSE, "">>,
    <<"b", "bool", TRUE, "">>,
    <<"l", "list", FALSE, "">>,
    <<"sp", "splist", FALSE, "">>,
    <<"j", "json", TRUE, "">>,
    <<"oj", "json", FALSE, "">>,
    <<"os", "str", FALSE, "">>>>,
  defaults |-> <<<<"os", S("one")>>, <<"l", LS(<<"one">>)>>, <<"j", O(<<E("k", LS(<<"v">>))>>)>>>>,
  allowed |-> <<<<"s", <<"one", "two">>>>, <<"on", <<"1", "2", "30">>>>, <<"l", <<"one", "two">>>>, <<"sp", <<"one", "two", "three">>>>>>]

ClassTable == <<
  <<"own.Own", own_Own>>,
  <<"message.Message", message_Message>>,
  <<"oauth2.ASConfigurationResponse", oauth2_ASConfigurationResponse>>,
  <<"oauth2.AccessTokenRequest", oauth2_AccessTokenRequest>>,
  <<"oauth2.AccessTokenResponse", oauth2_AccessTokenResponse>>,
  <<"oauth2.AuthorizationErrorResponse", oauth2_AuthorizationErrorResponse>>,
  <<"oauth2.AuthorizationRequest", oauth2_AuthorizationRequest>>,
  <<"oauth2.AuthorizationResponse", oauth2_AuthorizationResponse>>,
  <<"oauth2.CCAccessTokenRequest", oauth2_CCAccessTokenRequest>>,
  <<"oauth2.JWTSecuredAuthorizationRequest", oauth2_JWTSecuredAuthorizationRequest>>,
  <<"oauth2.NoneResponse", oauth2_NoneResponse>>,
  <<"oauth2.PushedAuthorizationRequest", oauth2_PushedAuthorizationRequest>>,
  <<"oauth2.ROPCAccessTokenRequest", oauth2_ROPCAccessTokenRequest>>,
  <<"oauth2.RefreshAccessTokenRequest", oauth2_RefreshAccessTokenRequest>>,
  <<"oauth2.ResourceRequest", oauth2_ResourceRequest>>,
  <<"oauth2.ResponseMessage", oauth2_ResponseMessage>>,
  <<"oauth2.SecurityEventToken", oauth2_SecurityEventToken>>,
  <<"oauth2.TokenErrorResponse", oauth2_TokenErrorResponse>>,
  <<"oauth2.TokenExchangeRequest", oauth2_TokenExchangeRequest>>,
  <<"oauth2.TokenExchangeResponse", oauth2_TokenExchangeResponse>>,
  <<"oauth2.TokenIntrospectionRequest", oauth2_TokenIntrospectionRequest>>,
  <<"oauth2.TokenIntrospectionResponse", oauth2_TokenIntrospectionResponse>>,
  <<"device.AccessTokenRequest", device_AccessTokenRequest>>,
  <<"device.AuthorizationRequest", device_AuthorizationRequest>>,
  <<"device.AuthorizationResponse", device_AuthorizationResponse>>,
  <<"oidc.AccessTokenRequest", oidc_AccessTokenRequest>>,
  <<"oidc.AccessTokenResponse", oidc_AccessTokenResponse>>,
  <<"oidc.AddressClaim", oidc_AddressClaim>>,
  <<"oidc.AuthnToken", oidc_AuthnToken>>,
  <<"oidc.AuthorizationErrorResponse", oidc_AuthorizationErrorResponse>>,
  <<"oidc.AuthorizationRequest", oidc_AuthorizationRequest>>,
  <<"oidc.AuthorizationResponse", oidc_AuthorizationResponse>>,
  <<"oidc.Claims", oidc_Claims>>,
  <<"oidc.ClaimsRequest", oidc_ClaimsRequest>>,
  <<"oidc.ClientRegistrationErrorResponse", oidc_ClientRegistrationErrorResponse>>,
  <<"oidc.DiscoveryRequest", oidc_DiscoveryRequest>>,
  <<"oidc.IdToken", oidc_IdToken>>,
  <<"oidc.JRD", oidc_JRD>>,
  <<"oidc.JsonWebToken", oidc_JsonWebToken>>,
  <<"oidc.Link", oidc_Link>>,
  <<"oidc.MessageWithIdToken", oidc_MessageWithIdToken>>,
  <<"oidc.OpenIDRequest", oidc_OpenIDRequest>>,
  <<"oidc.OpenIDSchema", oidc_OpenIDSchema>>,
  <<"oidc.ProviderConfigurationResponse", oidc_ProviderConfigurationResponse>>,
  <<"oidc.RefreshAccessTokenRequest", oidc_RefreshAccessTokenRequest>>,
  <<"oidc.RegistrationRequest", oidc_RegistrationRequest>>,
  <<"oidc.RegistrationResponse", oidc_RegistrationResponse>>,
  <<"oidc.ResourceRequest", oidc_ResourceRequest>>,
  <<"oidc.TokenErrorResponse", oidc_TokenErrorResponse>>,
  <<"oidc.UserInfoErrorResponse", oidc_UserInfoErrorResponse>>,
  <<"oidc.UserInfoRequest", oidc_UserInfoRequest>>,
  <<"oidc.WebFingerRequest", oidc_WebFingerRequest>>,
  <<"session.BackChannelLogoutRequest", session_BackChannelLogoutRequest>>,
  <<"session.CheckIDRequest", session_CheckIDRequest>>,
  <<"session.CheckSessionRequest", session_CheckSessionRequest>>,
  <<"session.EndSessionRequest", session_EndSessionRequest>>,
  <<"session.EndSessionResponse", session_EndSessionResponse>>,
  <<"session.LogoutToken", session_LogoutToken>>,
  <<"session.RefreshSessionRequest", session_RefreshSessionRequest>>,
  <<"session.RefreshSessionResponse", session_RefreshSessionResponse>>,
  <<"ida.Document", ida_Document>>,
  <<"ida.Evidence", ida_Evidence>>,
  <<"ida.IDAClaimsRequest", ida_IDAClaimsRequest>>,
  <<"ida.IdDocument", ida_IdDocument>>,
  <<"ida.IdentityAssuranceClaims", ida_IdentityAssuranceClaims>>,
  <<"ida.Issuer", ida_Issuer>>,
  <<"ida.PlaceOfBirth", ida_PlaceOfBirth>>,
  <<"ida.Provider", ida_Provider>>,
  <<"ida.QES", ida_QES>>,
  <<"ida.UtilityBill", ida_UtilityBill>>,
  <<"ida.VerificationElement", ida_VerificationElement>>,
  <<"ida.VerificationElementRequest", ida_VerificationElementRequest>>,
  <<"ida.VerifiedClaims", ida_VerifiedClaims>>,
  <<"ida.VerifiedClaimsRequest", ida_VerifiedClaimsRequest>>,
  <<"ida.Verifier", ida_Verifier>> >>

ClassNames == {ClassTable[i][1] : i \in 1..Len(ClassTable)}
Class(c) == LET i == CHOOSE i \in 1..Len(ClassTable) : ClassTable[i][1] = c IN ClassTable[i][2]
=============================================================================
