from .runner import facet, Skip, Violation
