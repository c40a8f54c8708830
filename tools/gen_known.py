import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 ('C20', 'cookie-boundary-shift', 'the signature of a cookie that is not encrypted covers payload and time stamp without anything in between, so a cookie with the separator moved (payload "ab", time stamp "1" to payload "a", time stamp "b1") is accepted with another payload and time stamp (the existing test test_parse_cookie pins the signature)'),
 ('C16', 'configured-post-logout-redirect-uris-ignored', 'a client configured with post_logout_redirect_uris (the list form) sends a logout request without any post_logout_redirect_uri, or with a generated one (the existing test TestEndSession.test_construct pins it; the single valued post_logout_redirect_uri is honoured)'),
 ('C15', 'bare-host-is-acct', 'a user identifier that is just a host name (example.com) is normalised to acct:example.com, OpenID Connect Discovery prescribes https://example.com (the existing tests test_query and test_query_device pin it)'),
 ('C05', 'registered-request-uri-overwritten', 'a client that has registered request_uris writes every request object to the file behind the first of them: a second session started before the provider fetched the first object replaces it'),
 ('C24', 'par-request-is-get', 'pushed authorization requests are made with HTTP GET (with a body) and without client authentication, RFC 9126 prescribes an authenticated POST (the existing test test_authorization in test_21_pushed_auth.py only answers GET)'),
 ('C07', 'csjwt-default-rs256', 'client_secret_jwt, when no signing algorithm is registered, preferred or announced by the provider, signs the assertion with RS256 and the private key of the client instead of with the client secret (the existing test test_get_audience_and_algorithm_default_alg pins the RS256 default)'),
]
FIXED = {
 'request objects are signed with the algorithm the provider registered': ('C05', 'the request_object_signing_alg in a registration response was ignored: request objects were signed with the algorithm that had been asked for (or RS256) although the provider had registered another one'),
 'what is added to a request is not added to what the caller': ('C14', 'the redirect URIs, keys and preferences of one client were added to the arguments the caller had passed, so using the same arguments for a second provider registered the URIs of the first there'),
 'keys given with a registration request are not dropped': ('C14', 'jwks given as argument of a registration request was replaced by the configured jwks_uri'),
 'signing and encryption algorithms a statically registered client': ('C01', 'the ID Token algorithms in the behaviour of a statically registered client were ignored: tokens signed with another algorithm were accepted, logout tokens signed with the configured one refused'),
 'a client that has no authentication method configured': ('C07', 'a client without configured authentication method refreshed with the refresh token as bearer token, left it out of the request and put the client secret in the body'),
 'the body type of a response does not depend': ('C21', 'util.verify_header refused a body type spelled "Application/JSON"'),
 'a DPoP proof signed with a symmetric algorithm': ('C08', 'DPoPProof.verify accepted a proof signed with HMAC, keyed by the symmetric key in the header'),
 'an issuer mismatch is allowed only when': ('C12', "allow: {'issuer_mismatch': False} allowed an issuer mismatch"),
 'the client configuration can tell where to find the keys': ('C26', "the documented client configuration 'keys': {'url': {issuer: url}} made the set-up of the client fail with TypeError"),
 'keys are fetched from a configured URL using the configured HTTP': ('C26', 'keys of others, configured by URL, were fetched with default HTTP parameters (verify, client certificate)'),
 'what pre construct methods hand over': ('C04', 'what pre construct methods (configured pre_functions, carry_state, put_state_in_post_args) hand over to the post construct methods was dropped'),
 'services found by name are those of the package': ('C27', 'service_factory put the directory of the package first in sys.path (shadowing logging and http) and returned classes that are not those of the package (isinstance fails)'),
 'the ID Token as received in check session': ('C27', 'check session and check ID requests carried the claims of the ID Token instead of the ID Token'),
 'WebFinger asks for the relation': ('C15', 'a configured link relation was looked for in the answer, but another one was asked for'),
 'the hash seed given to the handler': ('C14', 'RPHandler(hash_seed=...) was ignored, so redirect URIs changed with every restart'),
 'the registration access token is part': ('C19', 'the registration access token was lost when a context was exported'),
 'an issuer found by WebFinger': ('C15', 'a user identifier whose issuer has a configuration of its own got a dynamically registered client instead of the configured one'),
 'threads that use a client at the same time share one DPoP key': ('C22', 'two threads that made the first DPoP proofs of a client minted one key each, or one failed with KeyError "alg"'),
 'removing a session while another thread adds one for the same subject': ('C22', 'remove_state could remove, or fail on, the subject index entry another thread had just bound to its session'),
 'a web name on another host or outside the directory': ('C21', 'filename_from_webname accepted https://rp.example.org.evil/x, absolute names and ".." segments, so a request URI of a registration response could make store_request_on_file write anywhere'),
 "'?' and '#' in values of a urlencoded response": ('C21', 'a urlencoded response with a "?" or "#" in a value lost parameters'),
 'response content types are matched case-insensitively': ('C21', 'a response with content type "Application/JSON" or "Application/JWT" was not recognised'),
 'response bodies without a charset are UTF-8': ('C21', 'urlencoded, jrd+json and untyped responses were decoded with a guessed character set (a "~" in a token response became an overline)'),
 'a cookie with something else than what create_cookie makes': ('C20', 'an authentic cookie whose payload is not one of a CookieDealer (among them one with a moved separator) made get_cookie_value raise ValueError'),
 'with a DPoP key can be exported': ('C19', 'the export of a context with a DPoP key held a key object: not JSON, and a restored client would have used another key'),
 'with pushed authorization requests can be exported': ('C19', 'the export of a context with the pushed authorization add-on held the requests module: not JSON'),
 'with discovered provider info': ('C19', 'the export of a context after discovery or dynamic registration held message instances: not JSON'),
 'index entries in the state database': ('C18', 'internal entries of the session store answered as sessions: get_state("ref<state>ref") returned a bogus session, get_state("__<nonce>__") failed with a parse error instead of KeyError, and create_state accepted keys that collide with bound identifiers'),
 'a logout token must be signed': ('C17', 'a client registered for unsigned ID Tokens accepted unsigned logout tokens'),
 'the scheme of a WebFinger link': ('C15', 'a WebFinger link to HTTP://... (upper case or with leading space) passed the check for plain http'),
 'the host of a user identifier': ('C15', 'an identifier with two @ was looked up at the host after the first, one with an empty host was accepted'),
 'clients without a jwks_uri register their keys': ('C14', 'a client whose keys are not published (no jwks_path) registered neither jwks_uri nor jwks'),
 'use the systems randomness source': ('C03', 'state, nonce and code verifier came from the Mersenne Twister: predictable and repeated after a re-seed'),
 'removing a session removes everything': ('C18', 'remove_state raised / left nonce, sub, sid, logout state bindings behind'),
 'get_user_info uses the access token': ('C09', 'get_user_info without explicit token did not send a token of the session (also C11)'),
 'finalize handles responses from plain OAuth2': ('C24', 'finalize of a plain OAuth2 code flow raised KeyError sub'),
 'report missing end_session': ('C16', 'a client without end_session/provider_info service raised an undocumented error'),
 'create a redirect_uri when the response type': ('C14', 'callbacks for response type "code id_token" gave no redirect_uri'),
 'HTTP Basic credentials': ('C07', 'HTTP Basic credentials were base64url encoded and not form-encoded'),
 'a query part in an endpoint URL': ('C21', 'an endpoint URL with query got a second "?" (also C04)'),
 'a refresh response is stored beside': ('C09', 'a refresh response overwrote the token response: ID Token and refresh token lost (also C24)'),
 'the registration response may lack': ('C07', 'private_key_jwt failed with KeyError when the registration response had no token_endpoint_auth_signing_alg'),
 'pick a signing algorithm of the right kind': ('C07', 'private_key_jwt/client_secret_jwt signed with an algorithm of the wrong family'),
 'DPoP add-on is a no-op': ('C08', 'the DPoP add-on broke set-up when the provider did not announce DPoP or no common algorithm'),
 'tampering with an encrypted cookie': ('C20', 'a tampered encrypted cookie raised arbitrary exceptions'),
 'cookie values containing the field separator': ('C20', 'a cookie value with "::" did not survive the round trip'),
 'use the request arguments the request callback': ('C25', 'the result of the request callback was ignored'),
 'initiating a client does not modify the service': ('C23', 'init_services modified the shared service definitions (also C22)'),
 'setting up and using one client does not modify': ('C23', 'setting up a client modified the configuration shared with other issuers (also C04)'),
 'never replace a client that has sessions': ('C02', 'a second WebFinger login at the same issuer replaced the client and lost all its sessions (also C22)'),
 'signed cookies can carry a payload that contains': ('C20', 'a signed cookie with "|" in the payload did not parse'),
 'back-channel logout picks the session': ('C17', 'back-channel logout chose the session by subject even when a session id was given'),
 'report when none of a list of preferences': ('C13', 'a list preference with nothing in common was accepted as an empty list'),
 '201 is the status of a successful pushed': ('C24', 'a 201 answer to a pushed authorization request was taken as failure'),
 'HTTP error and redirect responses are never': ('C10', '3xx and unlisted 4xx responses with a success-shaped body were accepted'),
 'ID Tokens from the authorization and token endpoints': ('C01', 'a hybrid flow accepted two ID Tokens with different subjects'),
 'an ID Token in a refresh response is verified': ('C01', 'an ID Token in a refresh response was not verified, nor its subject compared'),
 'finding a session is safe while another thread': ('C22', 'looking up a session raised when another thread was adding a client'),
 'client_secret_jwt works for statically': ('C07', 'client_secret_jwt raised for statically registered clients: the secret was not among its keys'),
 'has a nonce whenever the response can bring': ('C04', 'a request for "code id_token" (and other multi-word response types) built by the authorization service without a nonce failed, or its nonce was not bound to the session'),
 'a configured request parameter with the value 0': ('C04', 'a configured value 0 (max_age: 0) was silently left out of the request'),
 'a configured encryption of request objects': ('C05', 'every request with a request object failed with "No target specified" when encryption was configured'),
 'parameters beside a pushed request object': ('C24', 'with merge rule lax list values (scope, response_type) were pushed as repeated parameters'),
 'a pushed request and the strict merge rule': ('C24', 'with merge rule strict (the default) starting a session raised MissingRequiredAttribute'),
 'a pushed request object is signed with the configured': ('C24', 'the configured signing algorithm of pushed request objects was ignored, and they did not name client and provider'),
 'use the client authentication method that the provider registered': ('C07', 'a provider that registered another token endpoint authentication method than asked for (and said so) got the one asked for'),
 'does not lose the ID Token of the previous refresh': ('C09', 'after two refreshes of which only the first brought an ID Token, that ID Token was forgotten, so an active authentication ended early'),
 'aggregated claims from an unsigned JWT': ('C11', 'aggregated claims were merged from a JWT with alg none and from plain JSON'),
 'can not replace the subject': ('C11', 'an aggregated or distributed claim source could replace the sub of the user info after it had been compared with the ID Token'),
 'wrongly tagged as JSON must use': ('C11', 'a signed user info response with content type application/json was accepted with any algorithm, including none, whatever was registered'),
 'held to the algorithm that the provider registered': ('C11', 'when the provider registered another user info algorithm than asked for, the one asked for was demanded'),
 'DPoP proofs accompany refresh requests': ('C08', 'a refresh request to the token endpoint had no DPoP proof'),
    'definition of a message class': ('C23', 'find_token() made access_token optional in the class of the message, so one request with a token changed what requests of all other clients were verified against'),
 'with the transport settings of the client': ('C25', 'a pushed authorization request ignored the transport settings (certificate verification, client certificate, time-out) and followed redirects to other hosts with the whole request'),
 'fetch the keys of others with the configured': ('C25', 'the configured HTTP parameters were not used when fetching the keys of a provider, since a new key jar already has a default time-out'),
 'yaml_to_py_stream writes Python': ('C26', 'yaml_to_py_stream wrote JSON (true, null), which is not Python'),
 'debug logging does not change': ('C26', 'configure_logging with debug changed the given, or the default, logging configuration'),
 'a logging configuration file can be loaded': ('C26', 'configure_logging failed with TypeError on any logging configuration file'),
 'replace keeps an upper case parameter': ('C26', 'replace removed an upper case parameter that has no place holder'),
 'in upper case is found also when there is a default': ('C26', 'HTTPC_PARAMS in upper case was ignored and the default used'),
 'a relative base path is applied only once': ('C26', 'file names in a nested configuration got a relative base path twice'),
 'domain and port are put into every URI': ('C26', 'the place holders for domain and port were left in redirect_uris and logout URIs of clients, and the configured domain (RPConfiguration) or the given one (Configuration) was ignored'),
 'content type of the body of a pushed': ('C24', 'a pushed authorization request had no content type'),
 'client assertions in requests that are not defined': ('C24', 'a client-credentials request with client_secret_jwt or private_key_jwt raised KeyError'),
 'tokens got with client credentials replace': ('C24', 'after a refresh, new tokens got with client credentials were not used: the access and refresh tokens of the old refresh response were'),
 'from a refresh that has a nonce must have': ('C01', 'an ID Token in a refresh response was accepted with the nonce of another session'),
 'a faulty cookie is no reason': ('C10', 'a well-formed success answer with a cookie that could not be parsed ("a/b=1", a non numeric version) made the operation fail, and its tokens got lost'),
 'htu of a DPoP proof': ('C08', 'the htu of a DPoP proof included the query part of the endpoint URL, which a provider that follows the specification refuses'),
 'get_response_type used an attribute that clients do not have': ('C13', 'RPHandler.get_response_type raised AttributeError for every client'),
 'from the authorization response got lost': ('C17', 'a session whose ID Token came only in the authorization response had no ID Token in the result of finalize and its sid was not bound, so a back-channel logout by sid did not find it (also C02)'),
 'without configured scope or response types': ('C04', 'begin raised KeyError for a client with no configured scope, or no response types, also when the caller gave one'),
 'redirect_uri fits the configured request arguments': ('C04', 'with response_type or response_mode in the configured request_args the redirect_uri was that of another response type'),
 'a provider without userinfo endpoint': ('C02', 'finalize raised KeyError, and the login was lost, when the provider has no userinfo endpoint'),
 'PKCE parameters have the defaults': ('C06', 'a client with PKCE whose configuration leaves out the length or the method could not be created, although both are documented to have defaults'),
 'registered only when the provider supports the logout': ('C14', 'back- and front-channel logout URIs were registered with a provider whose metadata says it does not support the logout (false)'),
 'directory for request objects can be created by several': ('C22', 'two threads that started the first sessions with request_uri at the same time: one failed with FileExistsError while the directory was being created'),
 'session IDs are kept when only front-channel': ('C17', 'with a provider that supports session IDs in front-channel logout but says false about back-channel logout the session ID of an ID Token was not kept, so it led to no session'),
 'openid is looked for as a word': ('C04', 'a scope given as a string that contains openid as part of a word (openid2 email) was sent without openid'),
 "encrypted user info can be decrypted with the client's own keys": ('C11', 'genuine encrypted user info was always refused (IssuerNotFound): decryption keys were looked up under the client ID, which owns none'),
 'authentication method configured as a list can be used': ('C27', 'a token_endpoint_auth_method configured as a list, as the documentation does ([""], [method]), made a login (no authentication) or a request made directly with the client fail with TypeError'),
 'signing algorithms for client assertions can be given as a list': ('C07', 'a list of preferred token_endpoint_auth_signing_alg made the token request fail with AttributeError, for a statically registered client and when the registration response left the algorithm out'),
 'a client is filed under the issuer it was configured with': ('C12', 'with allow issuer_mismatch configured and metadata that name another issuer no login could be completed: the client was filed under the other issuer while its sessions carry the configured one'),
 'an allowed issuer mismatch leaves the configured issuer': ('C12', 'with an allowed issuer mismatch the trailing slash of the issuer in the metadata was put on, or taken from, the configured one, so ID Tokens of the configured issuer were refused'),
 'redirect_uri fits the configured response mode': ('C04', 'with response_mode form_post in the behaviour the redirect_uri was the callback of another response mode'),
 'error responses are bound to the session': ('C02', 'an authorization error response with an unknown state, or one that belongs to a session with another provider, was returned as if it were the answer to a request'),
 'client_secret_jwt is signed with the present client secret': ('C07', 'after a new registration client assertions were still signed with the earlier client secret, or with another symmetric key of the client'),
 'request objects are signed with the present client secret': ('C05', 'request objects and pushed requests signed with HMAC used whatever symmetric key came first: an earlier client secret, or a key the provider does not know; none at all for a statically registered client'),
 'user info signed with the secret of a statically registered client': ('C11', 'signed user info, registered to be signed with the client secret (HS256, ...), was refused when the client was statically registered; accepted with any of the names the client itself has as issuer when it was dynamically registered'),
 'ID Tokens signed with the secret of a statically registered client': ('C01', 'a statically registered client that RPHandler sets up did not have its client secret among its keys, so a genuine ID Token (or logout token) signed with it (HS256/384/512) was refused'),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout.splitlines()
fixed = []
extra = {}
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        for k, (p, w) in FIXED.items():
            if k in s:
                fixed.append('fixed: property=%s %s %s' % (p, h, w))
                break
        else:
            raise SystemExit('no entry for ' + l)
json.dump({'findings': [{'property': p, 'key': k, 'what': w} for p, k, w in FINDINGS], 'fixed': fixed},
          open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
print(len(fixed))
