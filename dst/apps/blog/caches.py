"""Found by autodiscover()."""
from dst import models

models.discovered(1)
