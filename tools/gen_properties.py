import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/oidcrp/"+f for f in files],state=[dict(name=a,meaning=b,where="src/oidcrp/"+c) for a,b,c in state],
        mechanism=[dict(name=a,where="src/oidcrp/"+b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Only genuine ID Tokens are ever accepted",
 "An ID Token received in an authorization response, a token response or a refresh response is accepted (returned to the application, recorded in the session, or counted as an active authentication) only if it is signed with a key of the issuer the session was started with, using the algorithm registered for ID Tokens when one was registered (for a statically registered client: configured) and never unsigned unless that was explicitly allowed, names a subject, that issuer and this client (as audience, and as authorized party when one is named), and has not expired within the configured clock skew; tokens that came from the front channel or the code exchange must also carry the nonce of that session's own request, and front-channel tokens must match the code and access token they came with through c_hash/at_hash. An ID Token obtained later in the same session (code exchange of a hybrid flow, refresh) must have the same subject as the earlier one, and one from a refresh, if it has a nonce, the same nonce. Any other token makes the operation fail with an exception and leaves no token, user information or active authentication behind for that session, while every token that meets the conditions is accepted.",
 ["inputs","histories","configurations"],"For every response type that carries an ID Token, signing algorithm, client set-up (static/dynamic), and every single or combined deviation of an ID Token from a valid one, including key, header, signature and claim manipulations.",
 "The tests feed one well-formed token per flow and a handful of malformed ones; they never vary key ownership, algorithm, audience/azp shape, nonce of a sibling session, hashes or time systematically, nor check that a rejected token leaves no trace.",
 ["oidc/authorization.py","oidc/access_token.py","oidc/refresh_access_token.py","service.py","rp_handler.py"],
 [("verification arguments and nonce check of the authorization response","oidc/authorization.py"),("verification arguments and nonce to state binding of the token response","oidc/access_token.py"),("verification of refreshed ID Tokens","oidc/refresh_access_token.py"),("parse pipeline","service.py")],
 ["RPHandler.finalize result/exception","session record after the call","has_active_authentication"],
 [("session record","tokens accepted for a session","state_interface.py")])

p("C02","Responses only ever affect the session and issuer they belong to",
 "An authorization response is accepted only when its state value identifies a live session that was started with the very issuer the response is claimed to come from; unknown, altered, removed or other-issuer state values are refused with an exception and change no session. However many sessions are interleaved over any number of issuers, each authorization code is sent only to the token endpoint of the issuer it was received from, together with the redirect_uri and client credentials of that session's own request and client, and each session's tokens, subject, ID Token and user information are exactly those its own issuer returned for its own code. Starting, failing or finishing one session never loses or changes another.",
 ["histories","inputs","configurations"],"For every interleaving of begin/response/finalize/refresh/userinfo/clear steps of many sessions with several issuers (static, dynamically registered, picked by name, by issuer or by WebFinger) and for every attempt to deliver a response with another session's or a forged state or to claim another issuer.",
 "The tests run one session at a time, with one issuer; the mix-ups only exist when several sessions and issuers are active in the same handler.",
 ["rp_handler.py","state_interface.py","oidc/authorization.py","oauth2/access_token.py"],
 [("issuer to client map","rp_handler.py"),("state lookups and issuer comparison in finalize_auth","rp_handler.py"),("session store","state_interface.py")],
 ["outgoing HTTP requests","RPHandler results","session records"],
 [("issuer2rp / hash2issuer","which client serves which issuer","rp_handler.py")])

p("C03","Per-request secrets are fresh, unguessable and well formed",
 "Every authorization request gets a state value and (when it has one) a nonce of at least 24 characters, every PKCE code verifier has the configured length and only unreserved characters, and every logout state and client assertion or DPoP proof identifier is fresh; no two requests ever share such a value, and within one request state, nonce and verifier differ from each other. The values come from a source that cannot be predicted or replayed by observing or re-seeding the process' ordinary pseudo random generator, and each character position shows the variety expected of a uniform choice.",
 ["inputs","histories","schedules"],"For every number of requests, any order and number of concurrent threads, and any manipulation of the pseudo random generator's seed.",
 "Uniqueness and unpredictability are properties of whole histories; a test that looks at one value cannot see a constant, seeded or truncated source.",
 ["util.py","rp_handler.py","state_interface.py","oidc/authorization.py","oidc/end_session.py","oauth2/add_on/pkce.py","client_auth.py","oauth2/add_on/dpop.py"],
 [("random strings","util.py"),("state creation","state_interface.py"),("code verifier","oauth2/add_on/pkce.py")],
 ["authorization request URLs","token requests","logout URLs"])

p("C04","The authorization request says exactly what was configured and asked for",
 "The URL returned when a session is started points at the issuer's authorization endpoint with any query part of that endpoint kept intact, and carries the client's own client_id, the session's state, and each parameter with the value given by the caller or else by the configuration (response_type, scope, nonce, redirect_uri, claims, prompt, acr_values and so on), encoded so that decoding gives back exactly the same values. An OpenID Connect request always has 'openid' in its scope, has a nonce whenever the response can bring an ID Token, asks for consent when offline access is requested and no prompt was given, and its redirect_uri is the one given by the caller or else one that belongs to this client and fits the response type. What the session records about the request is what was sent, and neither the caller's arguments nor the configuration are modified. Functions configured for a service (pre_functions, post_functions) are called once per request of that service of that client, in the configured order: what they add reaches the request, and what the earlier ones hand over, and the session's state, reaches the later ones; arguments given in the call come before what is configured for them.",
 ["inputs","configurations","histories"],"For every combination of response type, scope, extra parameters (any unicode and reserved characters), endpoint URL with or without query, and configured or call-time values.",
 "Tests compare a few literal requests; encoding, precedence and aliasing errors only show for values and combinations they do not use.",
 ["rp_handler.py","oidc/authorization.py","oauth2/authorization.py","oauth2/utils.py","service.py","util.py"],
 [("request assembly","service.py"),("pre/post construct","oidc/authorization.py"),("URL building","util.py"),("redirect_uri selection","oauth2/utils.py")],
 ["returned URL","session record"])

p("C05","Request objects carry the very request, signed by this client",
 "When a request object is used (by value or by reference), it is a JWT whose claims are exactly the parameters of that authorization request, issued by this client to this issuer, signed with a key of this client using the algorithm asked for in the call, else the one the provider registered, else the configured one, and encrypted to the issuer when encryption is configured. When passed by reference, the request_uri refers to a location under the client's own base URL (a registered one when there is one) and the file behind it holds that session's request object; outside the object only the required parameters remain, with unchanged values. The session records the full original request so the later steps work as for a plain request.",
 ["inputs","configurations","histories"],"For every set of request parameters, method (value/reference), signing algorithm, optional encryption, and sequence of requests.",
 "Tests check one request per method and do not compare object content with request content or consecutive requests with each other.",
 ["oidc/authorization.py","oidc/utils.py"],
 [("construct_request_parameter","oidc/authorization.py"),("construct_request_uri, request_object_encryption","oidc/utils.py")],
 ["returned URL","files written","session record"])

p("C06","PKCE binds each code exchange to its own authorization request",
 "When PKCE is enabled every authorization request carries a code_challenge that is the base64url encoded (unpadded) hash, by the configured and announced method, of a code verifier, and the token request for the same session - and no other request or URL - carries exactly that verifier. This holds however sessions are interleaved and whichever issuers are used, and an unknown challenge method is refused rather than sent.",
 ["histories","configurations","inputs"],"For every interleaving of sessions, verifier length 43..128 and method S256/S384/S512, with several issuers, including repeated and failed attempts.",
 "Tests check one request/verifier pair; mix-ups need several sessions in flight.",
 ["oauth2/add_on/pkce.py","defaults.py"],
 [("add_code_challenge/add_code_verifier","oauth2/add_on/pkce.py")],
 ["authorization URL","token request body"])

p("C07","Client authentication proves the right client and leaks no secret",
 "Each request that authenticates the client does so with the configured method and this client's own credentials: client_secret_basic decodes (RFC 7617/6749) to exactly the client id and secret, client_secret_post puts exactly these two in the body, and client_secret_jwt/private_key_jwt carry a currently valid assertion issued by and about this client, with the token endpoint as audience, a fresh identifier, and a signature that verifies with the client secret respectively one of the client's private keys under the registered or configured algorithm. The client secret never appears anywhere in a request (URL, headers, body) other than where the chosen method puts it, never in any authorization request, and never reaches another issuer. A registered or preferred method is the one used, and a missing secret is an error.",
 ["inputs","configurations","histories"],"For every method, client id/secret with any characters, algorithm/key set, static and registered clients, code exchange, refresh and client-credentials requests.",
 "Tests use ASCII credentials and one algorithm at a time and do not look for the secret elsewhere in the traffic.",
 ["client_auth.py","service.py","oidc/access_token.py","rp_handler.py"],
 [("client authentication methods","client_auth.py"),("get_headers","service.py")],
 ["outgoing HTTP requests"])

p("C08","DPoP proofs are valid for exactly the request they accompany",
 "With the DPoP add-on and a provider that supports it, every token request (code exchange and refresh) and every user info request carries one DPoP proof: a JWT of type dpop+jwt signed with a configured algorithm the provider supports, verifiable with the public key embedded in its header (no private key material), naming the HTTP method and the endpoint of that very request, with a current issue time and an identifier never used before; a client keeps using one key. When the provider does not support DPoP, or no algorithm in common, requests are sent without proof and otherwise unchanged. Verifying a proof succeeds for exactly the proofs that are unaltered.",
 ["inputs","configurations","histories"],"For every algorithm combination, sequence of requests and alteration of a proof.",
 "Tests check one request with one algorithm and never a provider without support or an altered proof.",
 ["oauth2/add_on/dpop.py"],
 [("dpop_header, DPoPProof","oauth2/add_on/dpop.py")],["outgoing HTTP requests"])

p("C09","Token bookkeeping: expired tokens are never handed out, the latest is used",
 "At any time, asking for a valid access token gives, from the tokens of the authorization response, the code exchange and the latest refresh, one that the session really received and that has not expired (with its right expiry time), preferring one without an expiry, otherwise the one with the latest expiry, and fails with an exception when there is none; a session has an active authentication exactly when the ID Token it received most recently has not expired. User info requests use the most recently received access token unless told otherwise; a refresh presents the most recently received refresh token, and its result adds to the session's tokens without losing the ID Token or a refresh token that was not replaced.",
 ["histories","inputs"],"For every sequence of login, refresh (with or without new refresh token, ID Token, lifetime), user info and clock advance, for all response types.",
 "Tests look at one token right after login; expiry and refresh chains need time to pass and several refreshes.",
 ["rp_handler.py","oauth2/refresh_access_token.py","oauth2/access_token.py","oidc/authorization.py","client_auth.py","oidc/userinfo.py","state_interface.py"],
 [("get_valid_access_token, has_active_authentication","rp_handler.py"),("__expires_at bookkeeping","oauth2/access_token.py"),("find_token","client_auth.py")],
 ["API results","outgoing HTTP requests"])

p("C10","Failures at the provider never turn into success",
 "Whatever a token, refresh, user info, registration or discovery endpoint answers - error response, wrong status (3xx, 4xx, 5xx) even with a success-shaped body, empty, truncated or mistyped content, a missing required parameter, or a connection failure - the operation ends in a reported error or exception and records nothing from that answer: no token, subject, user information, client credentials or endpoint - and the code or refresh token that was sent is not sent again on its own. Well-formed success answers are accepted in each supported encoding, and after a failure the same session or another can still complete normally. An error in an authorization response is reported with its state and error code and no token request is made for it; an error of an endpoint is reported with its code and description and the HTTP status it came with.",
 ["fault_sequences","inputs"],"For every endpoint, every fault kind and every position of the fault in the sequence of calls of a flow.",
 "Tests inject single faults at service level and look at the exception only, not at what was recorded or at a subsequent retry.",
 ["oauth2/__init__.py","service.py","rp_handler.py","util.py"],
 [("get_response, service_request, parse_request_response","oauth2/__init__.py"),("parse_response","service.py")],
 ["API results","session record","outgoing HTTP requests"])

p("C11","User info is bound to the authenticated subject and to its token",
 "User information is accepted for a session only when its subject equals the subject of the session's ID Token; a signed user info response must verify with the issuer's key under the registered algorithm, also when it comes encrypted to the client (then it is decrypted and delivered unchanged); aggregated claims are merged only for the claim names that the response attributes to that source, and only when the embedded JWT verifies. The access token is sent only to the user info endpoint of the issuer that issued it, as bearer credential and never in a URL. What the application receives equals what the provider asserted (processed by the functions the application adds, if any), and that is what the session records.",
 ["inputs","histories","configurations"],"For every user info content, encoding (JSON, signed JWT, encrypted JWT), subject mismatch, claim source structure and response type.",
 "Tests use one user info document per encoding and do not vary subject, signer or claim sources.",
 ["oidc/userinfo.py","rp_handler.py","client_auth.py","oidc/__init__.py"],
 [("post_parse_response","oidc/userinfo.py"),("get_user_info","rp_handler.py"),("bearer methods","client_auth.py")],
 ["API results","session record","outgoing HTTP requests"])

p("C12","Provider discovery only trusts the issuer that was asked",
 "Provider metadata is fetched from the well-known location under the issuer identifier (trailing slash ignored), or at a configured discovery URL, and accepted only when the issuer it names is the one that was asked for, unless a mismatch was explicitly allowed; otherwise nothing changes. After acceptance each service talks to exactly the endpoint the metadata (or the static configuration) names for it, and the keys used for that issuer are the ones that the metadata refers to and are used for no other issuer.",
 ["inputs","configurations","histories"],"For every issuer identifier form, metadata document and mismatch, dynamic or static, several issuers in any order.",
 "Tests use one issuer and one matching document.",
 ["oauth2/provider_info_discovery.py","oidc/provider_info_discovery.py","rp_handler.py"],
 [("_verify_issuer, _set_endpoints","oauth2/provider_info_discovery.py"),("do_provider_info","rp_handler.py")],
 ["outgoing HTTP requests","service endpoints"])

p("C13","Client behaviour is negotiated within what the provider supports",
 "For every client preference that has a provider counterpart, the behaviour chosen is among the client's preferences and among what the provider says (or by default is understood) to support: for list-valued registration parameters all common values in the client's order, for single-valued ones the first common value; when the provider says nothing and there is no default the preference is used. If nothing is common the set-up fails with a configuration error rather than proceeding, and other preferences are carried over unchanged. What the handler reports as response type and token endpoint authentication method of a client (get_response_type, get_client_authn_method) is what was negotiated.",
 ["configurations","inputs"],"For every combination of preference values and provider metadata.",
 "The space is a cross product of some twenty parameters by absent/single/list/disjoint; tests take two points in it.",
 ["oidc/provider_info_discovery.py"],
 [("match_preferences","oidc/provider_info_discovery.py")],["behaviour after discovery"])

p("C14","Dynamic registration asks for what will be used and adopts what was granted",
 "A registration request carries the negotiated behaviour, grant types that follow from its response types, redirect URIs (and logout/request URIs when usable) under the client's base URL that are specific to the issuer - never the same for two issuers of one handler - and either jwks_uri or jwks but not both. After registration the client uses exactly the returned client_id, secret and expiry everywhere, the redirect_uri it sends in authorization and token requests is one it registered with that issuer, and keys (including the secret) are usable for that client. A registered client is not registered again. What the caller asks for explicitly comes before what is configured, and the caller's arguments are not modified. The generated URIs follow from issuer and hash seed: the same after a restart with the same seed, others with another.",
 ["configurations","inputs","histories"],"For every set of response types, callbacks, preferences, provider capabilities and registration response, over several issuers.",
 "Tests register with one configuration at a time; uniqueness across issuers and consistency between registered and used values need whole flows.",
 ["oidc/registration.py","rp_handler.py","oauth2/utils.py","util.py"],
 [("add_callbacks/create_callbacks, response_types_to_grant_types, update_service_context","oidc/registration.py")],
 ["registration request","subsequent requests"])

p("C15","WebFinger asks the right host and follows only the right link",
 "A user identifier is normalised as OpenID Connect Discovery prescribes, so the WebFinger request goes, over https, to the host (and port) of the identifier's authority with the normalised identifier as resource (fragment removed) and the configured relation (the OpenID Connect issuer one by default); identifiers that cannot be normalised are refused. From the answer only the first link with that relation is used, and a plain http issuer is refused unless explicitly allowed. The client that results is the one configured for the issuer found, if there is one, else one made from the default configuration.",
 ["inputs","configurations"],"For every identifier (acct, URL, host, host:port, e-mail shaped, with path/query/fragment) and every set and order of links.",
 "Tests enumerate some thirty identifiers and one link list.",
 ["oidc/webfinger.py"],[("query, update_service_context","oidc/webfinger.py")],["outgoing HTTP requests","issuer chosen"])

p("C16","RP-initiated logout names the right session and returns to the right place",
 "The logout request goes to the issuer's end session endpoint and carries, as hint, the very ID Token (as received) of that session - the most recent one - the post-logout redirect URI that the caller gave or else one configured or registered for this client, and a fresh state that from then on identifies that session and no other. A client that cannot do logout says so with the documented error.",
 ["histories","configurations"],"For every response type, interleaving of sessions, number of logout requests and source of the redirect URI.",
 "Tests build one logout request for one session.",
 ["oidc/end_session.py","rp_handler.py","state_interface.py"],
 [("EndSession pre-construct","oidc/end_session.py"),("logout","rp_handler.py")],["logout URL","logout state lookup"])

p("C17","Back-channel logout honours only genuine tokens, for the session they name",
 "A back-channel logout request is honoured only if its logout token is signed by the issuer with the expected algorithm, is issued by that issuer for this client, carries the logout event, a subject or session id, and no nonce; anything else is refused with an exception and no session is affected, and what the request says outside the token counts for nothing. An honoured token yields the session with that session id when the client knows it, otherwise the session most recently bound to that subject, and an identifier nobody knows is an error.",
 ["inputs","histories","configurations"],"For every deviation of a logout token and every population of sessions sharing or not sharing subjects.",
 "No test exercises back-channel logout at all.",
 ["rp_handler.py","state_interface.py","oidc/access_token.py"],
 [("backchannel_logout","rp_handler.py"),("sid/sub lookups","state_interface.py")],["API result"])

p("C18","The session store is an exact map and forgetting a session forgets all of it",
 "A session's items are returned exactly as stored, and a nonce, session id, subject or logout state leads to the session it was last bound to and to no other; values of one kind never answer for another kind. Removing a session removes its record, all identifiers bound to it and everything else stored on its behalf, so no lookup finds it any more, while all other sessions with all their identifiers are unaffected; looking up or using an unknown or removed session is a KeyError.",
 ["histories","inputs"],"For every sequence of create, store, bind, rebind, lookup and remove operations over any number of sessions and identifier values.",
 "No test removes a session, and tests never bind two sessions to one subject or several identifiers of a kind to one session.",
 ["state_interface.py","rp_handler.py"],
 [("store_x2state/get_state_by_x/remove_state","state_interface.py"),("clear_session","rp_handler.py")],["store API","persistent form"])

p("C19","A client can be persisted at any point and resumed without a visible difference",
 "Exporting a client's context at any point of a flow (after set-up, after the authorization request, after the response, after the tokens, after user info or refresh), passing it through JSON and loading it into a freshly created client gives a client that completes the flow with the same requests, the same session contents and the same results as the original would have. Exporting changes nothing, and a second export of the restored client equals the first.",
 ["crash_points","histories","configurations"],"For every point at which the process may stop between two API calls and for every client set-up (static/dynamic, client authentication method, PKCE, response type).",
 "Tests persist at one point per file and compare a few attributes.",
 ["service_context.py","state_interface.py","service.py"],
 [("dump/load parameters","service_context.py"),("store dump","state_interface.py")],["dump()/load()","subsequent requests and results"])

p("C20","Cookies come back as sent or not at all",
 "A cookie made by the library is parsed back, with the same keys, to exactly the value, time stamp and type that went in, for any value; a cookie whose payload, time stamp, signature, cipher text, tag or nonce has been altered, or that was made with another key, is never accepted - it is reported as an invalid cookie signature or as no cookie. With an encryption key the payload is not visible in the cookie. Attributes (domain, path, expiry, secure, HttpOnly, SameSite) are those asked for and a deletion cookie has already expired.",
 ["inputs","configurations"],"For every payload, key, attribute combination and single or multiple alteration of the cookie text.",
 "Tests round-trip one ASCII value and tamper with one digit of one cookie.",
 ["cookie.py"],[("make_cookie/parse_cookie","cookie.py"),("CookieDealer","cookie.py")],["cookie text","parse result"])

p("C21","Requests are serialised without loss in URL, form, JSON or JOSE form",
 "For every service request, a GET request's URL keeps the endpoint's own scheme, host, path, query and fragment and adds exactly the request's parameters, while a POST request leaves the URL alone and puts exactly the request's parameters in the body in the announced content type; decoding by a standard decoder gives back the same values for any text. A response body is decoded according to its content type (with sensible detection when missing), joining a base URL and a path yields exactly one slash between them, and a file name derived from one of the client's own URLs maps back to that URL while foreign URLs are refused.",
 ["inputs"],"For every parameter name/value text, endpoint URL, method and content type.",
 "Tests use plain ASCII values and two endpoint forms.",
 ["util.py","service.py","service_context.py"],
 [("get_http_url/get_http_body/get_deserialization_method/add_path","util.py"),("get_request_parameters","service.py")],["returned URL/body/headers"])

p("C22","Concurrent use of one handler is equivalent to some sequential use",
 "When many threads use one handler at the same time - starting, finishing, refreshing and clearing sessions with the same, new and different issuers, each session handled by one thread at a time - every operation that would succeed on its own succeeds, no session is lost, duplicated or handed another's state, nonce, verifier, tokens or user information, and afterwards there is exactly one client per issuer, which knows every live session of that issuer.",
 ["schedules","histories"],"For every interleaving of threads at the points where the library reads and updates the shared handler, client and session state, including while a provider is slow.",
 "All tests are single threaded.",
 ["rp_handler.py","state_interface.py","service.py","service_context.py"],
 [("issuer2rp set-up","rp_handler.py"),("session store","state_interface.py"),("service initialisation","service.py")],["results per thread","handler state after join"])

p("C23","Clients of different issuers do not influence each other",
 "Setting up or using the client of one issuer never changes the configuration objects it was given, nor the requests, keys, endpoints, credentials or behaviour of the client of any other issuer, whether configured separately or from the shared default configuration; the order in which issuers are first used makes no difference. A symmetric secret or a key of one issuer is never used towards, or to verify tokens from, another.",
 ["histories","configurations"],"For every order and combination of issuers set up from separate or shared configurations.",
 "Tests set up one issuer per handler and do not compare configurations before and after.",
 ["rp_handler.py","service_context.py","service.py","entity.py"],
 [("init_client","rp_handler.py"),("init_services","service.py"),("context initialisation","service_context.py")],["configuration objects","outgoing HTTP requests"])

p("C24","OAuth2 grants: client credentials, plain code flow and pushed requests",
 "A plain OAuth2 client completes the code flow without ID Token or subject; a client-credentials client obtains a token with its own credentials and nothing user related, remembers it, and refreshes with exactly the refresh token it was given last. With pushed authorization requests the full request goes to the pushed authorization request endpoint and the browser URL then carries only the client_id and the returned reference (and the required parameters when asked for), for the same session; if the push fails no reference is invented.",
 ["histories","configurations","fault_sequences"],"For every grant, sequence of token and refresh requests, body format, merge rule and failure of the pushed request.",
 "Tests cover one request per grant at service level and do not run the whole exchange.",
 ["oauth2/client_credentials/cc_access_token.py","oauth2/client_credentials/cc_refresh_access_token.py","oauth2/add_on/pushed_authorization.py","oauth2/authorization.py","oauth2/access_token.py","rp_handler.py"],
 [("CC services","oauth2/client_credentials/cc_access_token.py"),("push_authorization","oauth2/add_on/pushed_authorization.py")],["outgoing HTTP requests","results"])

p("C25","Back-channel HTTP honours its security settings and follows no redirects",
 "Every back-channel request (discovery, keys, registration and its read-back, pushed authorization, token, refresh, user info, WebFinger) made by a client uses the configured transport settings - certificate verification, client certificate, time-out - and the method and endpoint prescribed for it; redirects are never followed automatically (the retrieval of public keys, which carries nothing secret, excepted), so no token, code or credential is ever delivered to a host other than the endpoint it was meant for, and cookies set by one host are never sent to another. A configured request callback is applied to every request.",
 ["configurations","fault_sequences","histories"],"For every endpoint, transport configuration and redirect or cookie behaviour of the peers.",
 "Tests replace the HTTP layer by mocks, so what is really asked of the transport is never seen.",
 ["http.py","oauth2/__init__.py","entity.py","rp_handler.py"],
 [("HTTPLib","http.py"),("Client","oauth2/__init__.py")],["requests transport adapter"])

p("C26","A configuration takes effect exactly as written, in whatever form it is given",
 "A configuration given as a dictionary or as a YAML or JSON file, alone or as part of a larger one, with parameter names in lower or upper case, yields exactly the base URL, clients, services, key and HTTP parameters, web server and logging settings that it spells out: {domain} and {port} in every URI of the relying party are replaced by the domain and port given to the constructor, else the configured ones, else 127.0.0.1 and 80; relative file names are put under the base path, once; certificate verification is on unless it was switched off; a hash seed that was not configured is random and never the same twice. The helpers that turn such settings into HTTP parameters, TLS contexts (certificate shown, client certificates ignored, accepted or demanded), imported classes and add-ons do what the settings say, refuse what makes no sense, and do not change the settings they read.",
 ["inputs","configurations"],"For every configuration, form, nesting, base path, given or configured domain and port, and parameter name case.",
 "The tests load two files and look at a handful of values; place holders in client URIs, upper case names with defaults, relative base paths and the TLS behaviour are never looked at.",
 ["configure.py","util.py","logging.py","oauth2/add_on/__init__.py"],
 [("RPConfiguration and Configuration","configure.py"),("lower_or_upper, replace, set_param, get_http_params, create_context","util.py")],["configuration objects","outgoing HTTP requests","TLS hand-shakes"])

p("C27","Status requests and provider-specific services speak for their own session",
 "A session status (check session) or ID check request carries the ID Token of that session exactly as it was received - the most recent one - goes to the given endpoint and changes nothing; for a session that is unknown, removed or has no ID Token it never carries another session's. The services for particular providers (GitHub, LinkedIn, and standard services configured without client authentication) complete interleaved logins with each session's own code, token and user information as that provider returned it, send the access token the way the service is configured to, give a client's secret to no other provider, and take an answer that lacks what the service requires, or an error, for no success. A service looked up by name is the one of that name from the first of the given directories that has it, with the given arguments, and looking it up changes nothing else in the process.",
 ["histories","inputs","configurations"],"For every interleaving of sessions, response type, source of the ID Token, mix of providers, answer and list of directories.",
 "There are no tests of check session, check ID, the GitHub and LinkedIn services or the lookup by name beyond construction.",
 ["oidc/check_session.py","oidc/check_id.py","provider/github.py","provider/linkedin.py","service_factory.py","oidc/userinfo.py"],
 [("oidc_pre_construct","oidc/check_session.py"),("AccessToken, UserInfo","provider/github.py"),("service_factory","service_factory.py")],["outgoing requests","results","service objects"])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
