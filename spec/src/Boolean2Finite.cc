//**********************************************************************//
//Including Libraries and Header files
#include "Global.h"
#include <cstring>


using namespace std;

//Global Declaration - Variables

//**********************************************************************//
//Function Definitions
//Boolean2Finite
void Boolean2Finite(CommandLine * cline)
{
  //local variables
  ifstream infile;
  ofstream outfile;
  string line;
  string word;
  int line_num = 0;
  int variable = 0;
  set<int> variables;
  vector <vector<int> > data;
  vector <int> temp;

  //opening infile to read and checking if it opens
  infile.open(cline->FILE, ios::in);
  if(!infile)
    {
      cout<<endl;
      cout<<"**** ERROR ****"<<endl;
      cout<<"Could not open input file"<<endl;
      cout<<endl;
      exit(1);
    }

  //opening outfile to write and checking if it opens
  outfile.open(cline->MODEL_FILE, ios::out);
  if(!outfile)
    {
      cout<<endl;
      cout<<"**** ERROR ****"<<endl;
      cout<<"Could not open input file"<<endl;
      cout<<endl;
      exit(1);
    }

  //now reading each line from the infile and if needed to convert
  //then converting it and writing to outfile or just writing directly
  while(getline(infile, line))
    {
      //lines can have any length, and so can words
      char * line_buffer = &line[0];
      word.resize(line.size() + 1);
      char * word_buffer = &word[0];
      ++line_num;
      //if line is comment - just write
      if(line_buffer[0] == 'c')
	{
	  outfile.write(line_buffer, strlen(line_buffer));
	  outfile.put('\n');
	}
      //else if line is p cnf var_num clause_num - just write
      else if(line_buffer[0] == 'p')
	{
	  outfile.write(line_buffer, strlen(line_buffer));
	  outfile.put('\n');
	}
      //a line without a word is not a clause
      else if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
	{
	  continue;
	}
      //% ends the clauses of SATLIB files
      else if(line_buffer[0] == '%')
	{
	  break;
	}
      //else its variables
      else
	{
	  char * lp = line_buffer;
	  do
	    {
	      char * wp = word_buffer;
	      //erasing all leading space/tabs
	      while (*lp && ((*lp == ' ') || (*lp == '\t') || (*lp == '\r')))
		{
		  lp++;
		}
	      //reading each value into word buffer
	      while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\n'))
		{
		  *(wp++) = *(lp++);
		}
	      *wp = '\0';
	      //converting into int and writing to file
	      if(strlen(word_buffer) != 0)
		{
		  variable = atoi(word_buffer);
		  variables.insert(abs(variable));
		  //checking if variable = 0 i.e end of line
		  if(variable != 0)
		    {
		      //checking for sign
		      if(variable < 0)
			{
			  //variable = -variable;
			  //outfile<<variable<<"=0 ";
			  temp.push_back(variable);
			}
		      else
			{
			  //outfile<<variable<<"=1 ";
			  temp.push_back(variable);
			}
		    }
		  //else the clause is complete, wherever its lines end
		  else
		    {
		      data.push_back(temp);
		      temp.clear();
		    }
		}
	    }while(*lp);
	}
    }
  //the 0 of the last clause may be missing
  if(!temp.empty())
    data.push_back(temp);

  //now writing back the domain information
  //the solver finds a variable by its position: every one up to the last
  //needs its line, whether it occurs or not
  int last = variables.empty() ? 0 : *variables.rbegin();
  for(int v=1; v<=last; v++)
    {
      outfile<<"d "<<v<<" 2"<<endl;
    }

  int ovsize = data.size();
  int uvsize = 0;
  int var = 0;
  for(int y=0; y<ovsize; y++)
    {
      uvsize = data[y].size();
      for(int x=0; x<uvsize; x++)
	{
	  var = data[y][x];
	  if(var < 0 )
	    {
	      var = -var;
	      outfile<<var<<"=0 ";
	    }
	  else
	    {
	      outfile<<var<<"=1 ";
	    }
	}
      outfile<<"0"<<endl;
    }
  //closing file
  infile.close();
  outfile.close();
}
//End GenBenFunction
//**********************************************************************//
