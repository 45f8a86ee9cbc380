from .kokkos import groups
