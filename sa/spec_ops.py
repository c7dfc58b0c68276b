"""What the Sonolus runtime defines about its node functions (external specification): which of them act on the
runtime, which read state that other functions change, and which read state fixed for the whole engine run."""

# act: change memory, the stack, streams, entities, screen, audio, log, or control
EFFECT = frozenset("""
AddLifeScheduled Break Copy DebugLog DebugPause DecrementPost DecrementPostPointed DecrementPostShifted
DecrementPre DecrementPrePointed DecrementPreShifted DestroyParticleEffect Draw DrawCurvedB DrawCurvedBT
DrawCurvedL DrawCurvedLR DrawCurvedR DrawCurvedT ExportValue IncrementPost IncrementPostPointed
IncrementPostShifted IncrementPre IncrementPrePointed IncrementPreShifted MoveParticleEffect Paint Play
PlayLooped PlayLoopedScheduled PlayScheduled Print Set SetAdd SetAddPointed SetAddShifted SetDivide
SetDividePointed SetDivideShifted SetMod SetModPointed SetModShifted SetMultiply SetMultiplyPointed
SetMultiplyShifted SetPointed SetPower SetPowerPointed SetPowerShifted SetRem SetRemPointed SetRemShifted
SetShifted SetSubtract SetSubtractPointed SetSubtractShifted Spawn SpawnParticleEffect StackEnter StackGrow
StackInit StackLeave StackPop StackPush StackSet StackSetFrame StackSetFramePointer StackSetPointer StopLooped
StopLoopedScheduled StreamSet
""".split())

# no action, but the result depends on mutable state or on chance
READS = frozenset("""
Get GetPointed GetShifted Random RandomInteger StackGet StackGetFrame StackGetFramePointer StackGetPointer
""".split())

# fixed within a run, but not a function of the operands alone: never a compile-time constant
ENV = frozenset("""
BeatToBPM BeatToStartingBeat BeatToStartingTime BeatToTime TimeToScaledTime TimeToStartingScaledTime
TimeToStartingTime TimeToTimeScale HasEffectClip HasParticleEffect HasSkinSprite StreamGetNextKey
StreamGetPreviousKey StreamGetValue StreamHas
""".split())

# evaluate operands conditionally or repeatedly, or sequence them
STRUCTURAL = frozenset("""
Execute Execute0 While DoWhile JumpLoop Block Break
""".split())
