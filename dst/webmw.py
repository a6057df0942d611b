"""Middleware of the simulated site (stands for django.contrib.sessions and auth)."""
from .bindings import world


class Session(object):
    accessed = False


class User(object):
    def __init__(self, auth):
        self.auth = auth

    def is_authenticated(self):
        return self.auth


class AuthMiddleware(object):
    def __init__(self, get_response=None):
        self.get_response = get_response

    def process_request(self, request):
        request.session = Session()
        request.user = User(request.META.get('dst.user', False))

    def __call__(self, request):
        self.process_request(request)
        return self.get_response(request)


class LanguageMiddleware(object):
    """Stands for django.middleware.locale.LocaleMiddleware."""

    def __init__(self, get_response=None):
        self.get_response = get_response

    def process_request(self, request):
        request.LANGUAGE_CODE = request.META['HTTP_ACCEPT_LANGUAGE']

    def process_response(self, request, response):
        from django.utils.cache import patch_vary_headers
        patch_vary_headers(response, ('Accept-Language',))
        return response

    def __call__(self, request):
        self.process_request(request)
        return self.process_response(request, self.get_response(request))


class CrashMiddleware(object):
    """Somebody else's middleware, which fails now and then."""

    def __init__(self, get_response=None):
        self.get_response = get_response

    def process_request(self, request):
        if request.META.get('dst.crash') == 'request':
            raise world().app_error('middleware')

    def process_response(self, request, response):
        if request.META.get('dst.crash') == 'response':
            raise world().app_error('middleware')
        return response

    def __call__(self, request):
        self.process_request(request)
        return self.process_response(request, self.get_response(request))
