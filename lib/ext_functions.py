"""Functions a deployment may name in pre_functions/post_functions of a service (used by c04)."""

TRACE = []


def _note(name, request, service, kw):
    TRACE.append((name, id(service), dict(request or {}), {k: v for k, v in kw.items()}))


def pre_mark(request_args=None, service=None, **kw):
    _note('pre_mark', request_args, service, kw)
    request_args = dict(request_args or {})
    request_args['x_pre'] = 'from pre & mark'
    return request_args, {'pre_mark': service.service_name}


def pre_more(request_args=None, service=None, **kw):
    _note('pre_more', request_args, service, kw)
    request_args['x_more'] = request_args.get('x_pre', 'nothing') + '+'
    return request_args, {'pre_more': 1}


def pre_nothing(request_args=None, service=None, post_args=None, **kw):
    _note('pre_nothing', request_args, service, kw)
    return request_args, post_args


def post_mark(request, service=None, **kw):
    _note('post_mark', request, service, kw)
    request['x_post'] = 'by post=mark'
    return request


def post_replace(request, service=None, **kw):
    _note('post_replace', request, service, kw)
    new = type(request)(**{k: v for k, v in request.items()})
    new['x_last'] = str(request.get('x_post', 'no')) + '?'
    return new
