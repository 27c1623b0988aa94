// Layout of the objects the quiz contracts are about (compiled without access control).
#include "order.h"
#include <cstddef>
#include <kt_quiz/GroupQuiz.h>
#include <kt_quiz/ListQuiz.h>
namespace kanji_tools {
#define VC_OFF(N, T, M) size_t vcOff##N() { return offsetof(T, M); }
VC_OFF(QuizLauncher, Quiz, _launcher)
VC_OFF(QuizQuestion, Quiz, _currentQuestion)
VC_OFF(QuizMeanings, Quiz, _showMeanings)
VC_OFF(QuizCorrect, Quiz, _correctAnswers)
VC_OFF(QuizMistakes, Quiz, _mistakes)
VC_OFF(GroupAnswers, GroupQuiz, _answers)
VC_OFF(GroupKind, GroupQuiz, _groupType)
VC_OFF(GroupMembers, GroupQuiz, _memberType)
VC_OFF(ListAnswers, ListQuiz, _answers)
VC_OFF(ListChoices, ListQuiz, _choiceCount)
VC_OFF(ListStyle, ListQuiz, _quizStyle)
VC_OFF(ListPrompt, ListQuiz, _prompt)
VC_OFF(ListEnd, ListQuiz, _choiceEnd)
VC_OFF(LauncherMode, QuizLauncher, _programMode)
VC_OFF(LauncherOrder, QuizLauncher, _questionOrder)
VC_OFF(LauncherChoice, QuizLauncher, _choice)
VC_OFF(LauncherGroups, QuizLauncher, _groupData)
VC_OFF(ChoiceQuit, Choice, _quit)
VC_OFF(GroupsData, GroupData, _data)
VC_OFF(DataOut, KanjiData, _out)
size_t vcSizeGroupQuiz() { return sizeof(GroupQuiz); }
size_t vcSizeListQuiz() { return sizeof(ListQuiz); }
size_t vcSizeQuiz() { return sizeof(Quiz); }
size_t vcSizeLauncher() { return sizeof(QuizLauncher); }
size_t vcSizeGroupData() { return sizeof(GroupData); }
size_t vcSizeData() { return sizeof(KanjiData); }
} // namespace kanji_tools
