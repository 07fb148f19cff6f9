import p12
def run(ctx):
    p12.run(ctx, "P13")
