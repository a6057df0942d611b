"""URLs of the simulated site."""
from django.conf.urls import url

from .bindings import world


def dispatch(request, name):
    w = world()
    return w.by_task[w.sim.current].proc.views[name](request)


urlpatterns = [url(r'^(?P<name>\w+)/$', dispatch)]


def handler500(request):
    from django.http import HttpResponse
    return HttpResponse('error', status=500)
