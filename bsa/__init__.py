"""Static analyser for the bilby source tree (nothing of bilby is imported or run)."""
