"""Runtime monitors for EC-KitY."""
